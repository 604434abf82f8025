----------------------------- MODULE Interpol -------------------------------
(* Requests for values at periods on, between and outside the tabulated ones,*)
(* in any order and shape.                                                   *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 40)
KIND == Env("KIND", "interp")

VARIABLES ipModel, ipSample, ipFn, ipHow

Fns(m) == IF m = "GA11" THEN {"ratio", "ln_std"} ELSE {"accels", "ln_accels", "ln_stds"}
Hows(m) == IF m = "GA11" THEN {"linear"} ELSE {"linear", "nearest", "zero", "default", "slinear", "quadratic", "cubic"}
Init == /\ ipModel \in {MODELS[i] : i \in 1..Len(MODELS)} /\ ipSample \in 1..NSAMPLES
        /\ ipFn = "none" /\ ipHow = "none"
Next == /\ ipFn = "none" /\ ipFn' \in Fns(ipModel) /\ ipHow' \in Hows(ipModel) /\ UNCHANGED <<ipModel, ipSample>>

\* a requested period: j is the position in the request
LOCAL Ask(m, n, j) ==
    LET P == PsaPeriods(m)
        h == Hash(SEED, n, 50 + j, 100)
        k == 1 + Hash(SEED, n, 150 + j, Len(P) - 1)
        f == <<"0.05", "0.2", "0.31", "0.42", "0.61", "0.73", "0.9", "0.999">>[1 + Hash(SEED, n, 250 + j, 8)]
    IN IF h < 30 THEN P[k + Hash(SEED, n, 350 + j, 2)]
       ELSE IF h < 80 THEN Exp(Ln(P[k]) + f * (Ln(P[k + 1]) - Ln(P[k])))
       ELSE IF h < 85 THEN P[1] ELSE IF h < 90 THEN P[Len(P)]
       ELSE IF h < 95 THEN P[1] * <<"0.5", "0.999">>[1 + Hash(SEED, n, 450 + j, 2)]
       ELSE P[Len(P)] * <<"1.001", 3>>[1 + Hash(SEED, n, 450 + j, 2)]
\* a whole number of seconds, not just between two periods
LOCAL Tied(P, t) == \E k \in 1..Len(P) - 1 : Near(Sq(t), P[k] * P[k + 1], "1e-6")
LOCAL Whole(m, n, j) == LET P == PsaPeriods(m)
                            q == SelectSeq(Vec([i \in 1..11 |-> i]), LAMBDA t : ~Tied(P, t))
                        IN q[1 + Hash(SEED, n, 50 + j, Len(q))]
LOCAL Shapes == <<"scalar", "list", "tuple", "array", "matrix", "list", "array", "matrix", "strided", "readonly", "ints", "int list", "column">>
Emitted == ipFn # "none" =>
    LET n == 7919 * ipSample + Hash(1, ipModel, ipFn \o ipHow, 7919)
        shape == Shapes[1 + Hash(SEED, n, "shape", Len(Shapes))]
        len == IF shape = "scalar" THEN 1 ELSE IF shape = "matrix" THEN 6 ELSE 1 + Hash(SEED, n, "len", 8)
    IN Emit(PLAN, [k |-> KIND, m |-> ipModel, s |-> Sample(ipModel, n, "any"), opt |-> EmptyRec, tag |-> ipHow,
                   fn |-> ipFn, how |-> ipHow, shape |-> shape, T |-> Vec([j \in 1..len |-> IF shape \in {"ints", "int list"} THEN Whole(ipModel, n, j) ELSE Ask(ipModel, n, j)])])
=============================================================================
