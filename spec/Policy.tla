------------------------------- MODULE Policy -------------------------------
(* How a model polices its inputs: the outcome of constructing model m from  *)
(* the scenario s (a record of the given keys).                              *)
EXTENDS ASK14, BSSA14, CB14, CY14, Fourier, Durations, OtherGMMs, Correl, Catalogue

LOCAL Raw(s, r) == Get(s, r.n, "None")
LOCAL InOpts(r, v) == \E i \in 1..Len(r.opts) : Same(r.opts[i], v)
LOCAL Value(s, r) == IF IsNone(Raw(s, r)) THEN r.d ELSE Raw(s, r)
\* what a parameter does with its value: "ok", "low", "high", "unknown", "missing"
Verdict(s, r) ==
    IF r.req /\ IsNone(Raw(s, r)) THEN "missing"
    ELSE LET v == Value(s, r) IN
         IF r.k = "C" THEN IF InOpts(r, v) THEN "ok" ELSE "unknown"
         ELSE IF IsNone(v) THEN "ok"
         ELSE IF ~IsNone(r.lo) /\ v < r.lo THEN "low"
         ELSE IF ~IsNone(r.hi) /\ v > r.hi THEN "high"
         ELSE "ok"
Missing(m, s) == \E i \in 1..Len(Params(m)) : Verdict(s, Params(m)[i]) = "missing"
\* the policed scenario: exactly the declared parameters
Policed(m, s) ==
    LET ps == Params(m)
        names == {ps[i].n : i \in 1..Len(ps)}
        par(n) == ps[CHOOSE i \in 1..Len(ps) : ps[i].n = n]
    IN [n \in names |-> LET r == par(n) IN IF Verdict(s, r) = "unknown" THEN r.d ELSE Value(s, r)]
\* the completed scenario, with the published estimates
Completed(m, s) ==
    LET p == ToRec(Policed(m, s)) IN
    CASE m = "ASK14" -> ASK_Fill(p) [] m = "CB14" -> CB_Fill(p) [] m = "CY14" -> CY_Fill(p)
      [] m = "BA19" -> BA_Fill(p) [] OTHER -> p
\* magnitude bounds that depend on the mechanism
Logs(m, x) == CASE m = "BSSA14" -> BSSA_Logs(x) [] m = "CB14" -> CB_Logs(x) [] m = "CY14" -> CY_Logs(x) [] OTHER -> FALSE
\* the exception of the constructor, or "None"
Outcome(m, s) ==
    IF Missing(m, s) THEN "ValueError"
    ELSE LET p == ToRec(Policed(m, s)) IN
         IF m = "ASB14" /\ ASB_Metric(p) = "None" THEN "NotImplementedError"
         ELSE IF m = "PR24" /\ ~PR24_Supported(p) THEN "ValueError"
         ELSE "None"
=============================================================================
