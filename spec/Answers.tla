------------------------------ MODULE Answers -------------------------------
(* What the equations of this specification answer to a scenario, in the     *)
(* form in which the package's answers are recorded.                         *)
EXTENDS Session

(* ---- the answers of the specification ------------------------------------ *)
Rows(m) == Vec([j \in 1..(Reported(m)[2] - Reported(m)[1] + 1) |-> Reported(m)[1] + j - 1])
Answer(m, s, opt) ==
    LET out == Outcome(m, s) IN
    IF out # "None" THEN [exc |-> out, msg |-> "", y |-> <<>>, sd |-> <<>>]
    ELSE LET q == Ctx(m, Completed(m, s), opt)
             r == Rows(m)
         IN [exc |-> "None", msg |-> "", y |-> Vec([j \in 1..Len(r) |-> Exp(LnMed(m, q, r[j]))]),
             sd |-> Vec([j \in 1..Len(r) |-> IF m \in {"PR23", "PR24"} THEN 1 ELSE LnStd(m, q, r[j])]),
             pm |-> CASE m = "PR23" -> PR23_Dur(q.x, "0.75") [] m = "PR24" -> PR24_Dur(q.x, "0.75") [] OTHER -> <<>>]
RECURSIVE Largest(_, _)
Largest(q, k) == IF k = 0 THEN 0 ELSE MaxR(q[k], Largest(q, k - 1))
Gap(a, b) == LET n == Len(a.y)
                 d(x, y) == IF Same(x, y) \/ (IsNaN(x) /\ IsNaN(y)) THEN 0 ELSE AbsR(x - y)
             IN <<Largest(Vec([j \in 1..n |-> d(Ln(a.y[j]), Ln(b.y[j]))]), n), Largest(Vec([j \in 1..n |-> d(a.sd[j], b.sd[j])]), n)>>
=============================================================================
