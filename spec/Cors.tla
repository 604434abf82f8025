-------------------------------- MODULE Cors --------------------------------
(* Requests for correlation and covariance matrices.                         *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 60)

VARIABLES coFn, coSample

Fns == <<"BJ", "BA18.corr", "BA18.cov std", "BA18.cov component", "BA18.cov none", "BA18.cov both", "BA18.cov scalar", "PJ17.cov", "PJ17.cor", "PJ17.E", "PJ17.S", "PJ17.A",
         "PJ17.variances">>
LOCAL H(n, what, q) == q[1 + Hash(SEED, n, what, Len(q))]
\* pairwise different ordinates
LOCAL Special(f) == CASE f = "BJ" -> <<"0.01", "0.0101", "0.05", "0.1", "0.108", "0.109", "0.11", "0.15", "0.199", "0.2", "0.201", "1", "5", "10">>
                      [] OTHER -> <<"0.1", "0.05", "0.2", "0.5", "1", "1.0000001", "2", "5", "10", "20", "24", "30", "50", "100", "23.988321">>
LOCAL Draw(f, n, j) == IF Hash(SEED, n, 10 + j, 3) = 0 THEN H(n, 60 + j, Special(f))
                       ELSE IF f = "BJ" THEN Dec(10 + Hash(SEED, n, 110 + j, IF Hash(SEED, n, 160 + j, 2) = 0 THEN 250 ELSE 9990), 3)
                       ELSE Dec(100 + Hash(SEED, n, 110 + j, IF Hash(SEED, n, 160 + j, 2) = 0 THEN 3000 ELSE 49000), 3)
LOCAL Ordinates(f, n) == LET q == Vec([j \in 1..(1 + Hash(SEED, n, "len", 6)) |-> Draw(f, n, j)])
                             first == SelectIdx(Vec([j \in 1..Len(q) |-> ~\E i \in 1..(j - 1) : Eq(q[i], q[j])]))
                         IN Vec([j \in 1..Len(first) |-> q[first[j]]])
\* positions of a reordered, thinned request
LOCAL Thinned(n, len) == LET k == 1 + Hash(SEED, n, "k", len)
                             start == Hash(SEED, n, "st", len)
                         IN Vec([j \in 1..k |-> 1 + ((start + len * 3 - j) % len)])
LOCAL Sigmas(n, len, what) == IF Hash(SEED, n, what \o "g", 2) = 0 THEN "None"
                              ELSE Vec([j \in 1..len |-> Dec(5 + Hash(SEED, n, what \o Str(j), 95), 2)])
Init == coFn \in 1..Len(Fns) /\ coSample = 0
Next == coSample < NSAMPLES /\ coSample' = coSample + 1 /\ coFn' = coFn
Emitted == coSample > 0 =>
    LET n == 13 * coSample + coFn
        f == Fns[coFn]
        F == Ordinates(f, n)
        len == Len(F)
    IN Emit(PLAN, [k |-> "cor", m |-> "", tag |-> f, fn |-> f, F |-> F, sub |-> Thinned(n, len),
                   shape |-> H(n, "sh", <<"list", "array", "tuple">>),
                   std |-> Vec([j \in 1..len |-> Dec(10 + Hash(SEED, n, "std" \o Str(j), 90), 2)]),
                   component |-> H(n, "comp", <<"tau", "phi_s2s", "phi_s", "sigma">>),
                   sE |-> Sigmas(n, len, "E"), sS |-> Sigmas(n, len, "S"), sA |-> Sigmas(n, len, "A"),
                   mag |-> H(n, "mag", <<"3", "4.5", "6", "6", "7.2", "8">>)])
=============================================================================
