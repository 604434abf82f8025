------------------------------ MODULE Access --------------------------------
(* Orders in which the intensity measures of a ground motion model are read. *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
LENGTH == EnvInt("LENGTH", 3)
KIND == "read"

VARIABLES rdModel, rdOrder

Measures == <<"periods", "spec_accels", "ln_stds", "pga", "ln_std_pga", "pgv", "ln_std_pgv", "pgd", "ln_std_pgd">>
LOCAL Code(q) == IF q = <<>> THEN 0 ELSE IF Len(q) = 1 THEN q[1] ELSE IF Len(q) = 2 THEN 9 * q[1] + q[2]
                 ELSE 81 * q[1] + 9 * q[2] + q[3]
Init == rdModel \in {MODELS[i] : i \in 1..Len(MODELS)} /\ rdOrder = <<>>
Read == /\ Len(rdOrder) < LENGTH
        /\ \E j \in 1..Len(Measures) : rdOrder' = Append(rdOrder, j)
        /\ UNCHANGED rdModel
Next == Read
Emitted == Len(rdOrder) = LENGTH =>
    LET s == Sample(rdModel, Code(rdOrder), "any") IN
    Emit(PLAN, [k |-> KIND, m |-> rdModel, s |-> s, opt |-> EmptyRec, tag |-> "order",
                reads |-> Vec([j \in 1..LENGTH |-> Measures[rdOrder[j]]])])
=============================================================================
