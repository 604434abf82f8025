-------------------------------- MODULE Laws --------------------------------
(* The properties that relate runs of a model, checked of the specification  *)
(* itself: what the equations of this specification answer to the events of  *)
(* a plan is judged as if an implementation had answered.  A law that fails  *)
(* here shows that the property or the equations are wrong, whatever the     *)
(* package does.                                                             *)
EXTENDS Answers

PLAN == Env("PLAN", "plan.ndjson")
Plan == LoadNd(PLAN)
NPLAN == Len(Plan)

(* ---- the answers of the specification, as observations ------------------- *)
LOCAL Sub(w, e) == Vec([i \in 1..Len(e.sub) |-> Vec([j \in 1..Len(e.sub) |-> w[e.sub[i]][e.sub[j]]])])
Answered(e) ==
    CASE e.k = "fin" -> Answer(e.m, e.s, e.opt)
      [] e.k = "pair" -> [a |-> Answer(e.m, e.s, e.opt), b |-> Answer(e.m, e.other, e.opt)]
      [] e.k = "ladder" -> Vec([j \in 1..Len(e.rungs) |-> Answer(e.m, e.rungs[j], e.opt)])
      [] e.k = "edge" ->
            LET c == Vec([j \in 1..3 |-> Answer(e.m, With(e.s, e.p, e.at[j]), e.opt)])
                bad == SelectIdx(Vec([j \in 1..3 |-> c[j].exc # "None"]))
            IN IF Len(bad) > 0 THEN [exc |-> c[bad[1]].exc] ELSE [exc |-> "None", below |-> Gap(c[2], c[1]), above |-> Gap(c[2], c[3])]
      [] e.k = "cor" ->
            IF e.fn = "BA18.cov none" THEN [exc |-> "NotImplementedError"]
            ELSE LET w == CorWant(e) IN
                 [exc |-> "None", dims |-> <<>>, y |-> w,
                  part |-> IF e.fn = "PJ17.variances" THEN CorWant(With(e, "F", Vec([j \in 1..Len(e.sub) |-> e.F[e.sub[j]]]))) ELSE Sub(w, e)]
      [] e.k = "cms" ->
            IF e.fn = "KI unordered" THEN [exc |-> "ValueError"]
            ELSE LET w == CmsWant(e)
                     b == BJ_Cms(e.T, e.mu, e.sd, e.T[e.at], IF IsNone(e.cond[e.at]) THEN 0 ELSE e.cond[e.at])
                 IN [exc |-> "None", mean |-> w.mean, std |-> w.std, bj_mean |-> b.mean, bj_std |-> b.std]
LawJudged(e) ==
    CASE e.k = "fin" -> InDomain(e) [] e.k = "pair" -> Monotone(e) [] e.k = "ladder" -> MonotoneLadder(e) [] e.k = "edge" -> Boundary(e)
      [] e.k = "cor" -> Correlations(e) [] e.k = "cms" -> Conditional(e)
      [] OTHER -> Ok
LOCAL Applies(e) == e.k \in {"fin", "pair", "ladder", "edge", "cor", "cms"}

VARIABLES lwAt
LOCAL STRANDS == 64
Init == lwAt \in 1..(IF NPLAN < STRANDS THEN NPLAN ELSE STRANDS)
Next == lwAt + STRANDS <= NPLAN /\ lwAt' = lwAt + STRANDS
Lawful == LET e == Plan[lwAt] IN
          Applies(e) => LET v == LawJudged(With(e, "o", Answered(e))) IN v = Ok \/ (PrintT(e) /\ PrintT(v) /\ FALSE)
=============================================================================
