----------------------------- MODULE Verdicts -------------------------------
(* Verdicts: the sequence of the clauses that an observation breaks.         *)
EXTENDS Models

PROP == Env("PROP", "C08")
TOL == "1e-8"

\* a broken clause, with what was reported and what is specified
Bad(c, got, want) == <<[c |-> c, got |-> got, want |-> want]>>
Ok == <<>>
Judge(ok, c, got, want) == IF ok THEN Ok ELSE Bad(c, got, want)
\* the verdicts of every element of a sequence, together
Each(n, Of(_)) == Flat(Vec([j \in 1..n |-> Of(j)]))

\* values that may be numbers written as decimal strings
SameVal(a, b) == IF IsNum(a) /\ IsNum(b) THEN Eq(a, b) ELSE Same(a, b)
NearVal(a, b, tol) == IF IsNum(a) /\ IsNum(b) THEN Near(a, b, tol) ELSE Same(a, b)
\* a reported value against its logarithm; what the equations leave undefined is not judged
ValueIs(c, got, lnwant) ==
    IF ~IsFinite(lnwant) THEN Ok
    \* too small for a double of full precision
    ELSE IF lnwant < -690 THEN Judge(IsNum(got) /\ got >= 0 /\ got <= "1e-295", c, got, Exp(lnwant))
    ELSE Judge(IsNum(got) /\ Near(Ln(got), lnwant, TOL), c, got, Exp(lnwant))
NumberIs(c, got, want) ==
    IF ~IsFinite(want) THEN Ok ELSE Judge(IsNum(got) /\ Near(got, want, TOL), c, got, want)
\* two sequences of reported numbers that should agree (relative tolerance for values)
NearSeqs(c, a, b, tol) ==
    IF ~IsSeq(a) \/ ~IsSeq(b) THEN Judge(NearVal(a, b, tol), c, a, b)
    ELSE IF LenR(a) # LenR(b) THEN Bad(c \o ": length", LenR(a), LenR(b))
    ELSE Each(LenR(a), LAMBDA j : Judge(NearVal(a[j], b[j], tol), c \o " " \o Str(j), a[j], b[j]))
\* the exception of an attempted call, or "None"
ExcOf(v) == Get(v, "exc", "None")
=============================================================================
