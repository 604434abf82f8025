----------------------------- MODULE Energies -------------------------------
(* Requests for durations at energy thresholds (PR23, PR24, AS96).           *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 100)
NEXTRA == EnvInt("NEXTRA", 6)

VARIABLES rqModel, rqSample, rqKind, rqIndex

Outside == <<"0.0999", "0.05", "0", "-0.2", "0.9501", "0.96", "1">>
Names == <<"D5-10", "D5-20", "D5-30", "D5-40", "D5-50", "D5-60", "D5-70", "D5-75", "D5-80", "D5-85", "D5-90", "D5-95",
           "D5-99", "D5-15">>
\* how many equal spacings of requests there are
Count(kind) == CASE kind = "grid" -> Len(Thresholds) [] kind = "outside" -> Len(Outside) [] kind = "between" -> NEXTRA
                 [] kind = "name" -> Len(Names)
Request(kind, n, j) == CASE kind = "grid" -> Thresholds[j] [] kind = "outside" -> Outside[j] [] kind = "between" -> EnergyBetween(n, j)
                         [] kind = "name" -> Names[j]
Init == /\ rqModel \in {MODELS[i] : i \in 1..Len(MODELS)}
        /\ rqSample \in 1..NSAMPLES
        /\ rqKind \in (IF rqModel = "PR24" THEN {"grid", "outside", "between", "name"} ELSE {"grid", "outside", "between"})
        /\ rqIndex = 0
Next == \E j \in 1..Count(rqKind) : rqIndex = 0 /\ rqIndex' = j /\ UNCHANGED <<rqModel, rqSample, rqKind>>
\* "stds": numbers of standard errors from the median (AS96)
Stds == <<"-2", "-1", "0", "0.5", "1.75", "-4.2", "3.6">>
Emitted == rqIndex > 0 =>
    Emit(PLAN, [k |-> "energy", m |-> rqModel, s |-> Sample(rqModel, rqSample, "any"), opt |-> EmptyRec, tag |-> rqKind,
                e |-> Request(rqKind, rqSample, rqIndex),
                n |-> IF rqModel = "AS96" THEN Stds[1 + Hash(SEED, rqSample, rqIndex, Len(Stds))] ELSE "None"])
=============================================================================
