-------------------------------- MODULE Cms ---------------------------------
(* Requests for conditional spectra.                                         *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 150)

VARIABLES cmFn, cmSample

Fns == <<"BJ", "KI", "KI one", "KI unordered">>
LOCAL H(n, what, q) == q[1 + Hash(SEED, n, what, Len(q))]
\* increasing periods: those of the model tables, thinned
LOCAL All == <<"0.01", "0.0102", "0.0104", "0.02", "0.03", "0.05", "0.075", "0.1", "0.1002", "0.1004", "0.109", "0.1093", "0.11", "0.15", "0.19", "0.2", "0.21", "0.25", "0.3", "0.4", "0.5",
               "0.75", "1", "1.0003", "1.5", "2", "3", "4", "5", "7.5", "10">>
LOCAL Periods(n) == LET q == SelectSeq(All, LAMBDA t : Hash(SEED, n, "T" \o t, 3) > 0) IN IF Len(q) < 3 THEN All ELSE q
LOCAL Pos(n, len, what) == 1 + Hash(SEED, n, what, len)
Init == cmFn \in 1..Len(Fns) /\ cmSample = 0
Next == cmSample < NSAMPLES /\ cmSample' = cmSample + 1 /\ cmFn' = cmFn
LOCAL Event(n) ==
    LET f == Fns[cmFn]
        T0 == Periods(n)
        len == Len(T0)
        i == Pos(n, len, "i")
        \* not increasing: two periods exchanged or repeated
        j == 1 + Hash(SEED, n, "j", len - 1)
        T == IF f # "KI unordered" THEN T0
             ELSE IF Hash(SEED, n, "rep", 2) = 0 THEN Vec([k \in 1..len |-> IF k = j THEN T0[j + 1] ELSE T0[k]])
             ELSE Vec([k \in 1..len |-> IF k = j THEN T0[j + 1] ELSE IF k = j + 1 THEN T0[j] ELSE T0[k]])
        mu == Vec([k \in 1..len |-> Dec(Hash(SEED, n, "mu" \o Str(k), 400) - 300, 2)])
        sd == Vec([k \in 1..len |-> Dec(40 + Hash(SEED, n, "sd" \o Str(k), 60), 2)])
        target(k) == Dec(Hash(SEED, n, "tg" \o Str(k), 400) - 200, 2)
        tabulated == Hash(SEED, n, "tab", 2) = 0
        tc == IF tabulated THEN T0[i] ELSE H(n, "tc", <<"0.0123", "0.09", "0.108", "0.13", "0.33", "0.62", "1.234", "6">>)
        \* one, some or all periods conditioned upon
        density == IF f = "KI one" THEN 0 ELSE H(n, "dens", <<10, 30, 60, 90, 100>>)
        \* or all but one
        hole == IF f = "KI one" \/ Hash(SEED, n, "hole", 4) > 0 THEN 0 ELSE IF i = 1 THEN 2 ELSE i - 1
        cond == Vec([k \in 1..len |-> IF k = i \/ (k # hole /\ (hole > 0 \/ Hash(SEED, n, "in" \o Str(k), 100) < density)) THEN target(k) ELSE "None"])
    IN [k |-> "cms", m |-> "", tag |-> f, fn |-> f, T |-> T, mu |-> mu, sd |-> sd,
        tc |-> tc, target |-> target(99), cond |-> cond, at |-> i, shape |-> H(n, "sh", <<"list", "array">>)]
Emitted == cmSample > 0 => Emit(PLAN, Event(7 * cmSample + cmFn))
=============================================================================
