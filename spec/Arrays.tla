------------------------------- MODULE Arrays -------------------------------
(* Calls with arrays of periods, intensities, earthquakes.                   *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 100)

VARIABLES arFn, arSample

AllFns == <<"BJ.calc_correls", "AS96.interp", "AS96.interp stds", "AS96.calc_ln_dur_incr", "PR24.duration_model", "site">>
Fns == IF Env("FNS", "all") = "all" THEN AllFns ELSE <<Env("FNS", "all")>>
LOCAL H(n, what, q) == q[1 + Hash(SEED, n, what, Len(q))]
LOCAL Period_(n, j) == IF Hash(SEED, n, 10 + j, 4) = 0 THEN H(n, 60 + j, <<"0.01", "0.1", "0.109", "0.2", "1", "10">>)
                       ELSE Dec(10 + Hash(SEED, n, 30 + j, IF Hash(SEED, n, 90 + j, 2) = 0 THEN 300 ELSE 10000), 3)
LOCAL Nia(n, j) == IF Hash(SEED, n, 10 + j, 4) = 0 THEN H(n, 60 + j, <<"0.1", "0.95", "0.75", "0.05", "0.99", "0.5">>)
                   ELSE Dec(100 + Hash(SEED, n, 30 + j, 850), 3)
\* numbers of standard errors from the median
LOCAL StdErrs(n, j) == IF Hash(SEED, n, j, 3) = 0 THEN H(n, 1000 + j, <<"-2", "-1", "0", "0.5", "1", "1.7", "-3", "3", "4">>)
                       ELSE Dec(Hash(SEED, n, 2000 + j, 1000) - 500, 2)
LOCAL Shape(n) == H(n, "shape", <<"list", "tuple", "array", "matrix", "scalar", "strided", "readonly">>)
LOCAL Count(n) == CASE Shape(n) = "matrix" -> 6 [] Shape(n) = "scalar" -> 1 [] OTHER -> 1 + Hash(SEED, n, "len", 9)
Init == arFn \in 1..Len(Fns) /\ arSample = 0
Next == arSample < NSAMPLES /\ arSample' = arSample + 1 /\ arFn' = arFn
LOCAL Common(n) == [k |-> "arr", m |-> "", fn |-> Fns[arFn], tag |-> Fns[arFn], shape |-> Shape(n), opt |-> EmptyRec]
LOCAL Event(n) ==
    CASE Fns[arFn] = "BJ.calc_correls" ->
            With(With(Common(n), "T", Vec([j \in 1..Count(n) |-> Period_(n, j)])), "cond", Period_(n, 99))
      [] Fns[arFn] \in {"AS96.interp", "AS96.calc_ln_dur_incr"} ->
            With(With(Common(n), "T", Vec([j \in 1..Count(n) |-> Nia(n, j)])), "s", Sample("AS96", n, "any"))
      [] Fns[arFn] = "AS96.interp stds" ->
            LET len == 1 + Hash(SEED, n, "len", 6) IN
            With(With(With(With(Common(n), "shape", H(n, "sh", <<"list", "tuple", "array">>)),
                 "T", Vec([j \in 1..len |-> Nia(n, j)])), "s", Sample("AS96", n, "any")),
                 "stds", Vec([j \in 1..(1 + Hash(SEED, n, "ns", 4)) |-> StdErrs(n, 500 + j)]))
      [] Fns[arFn] = "PR24.duration_model" ->
            LET len == 1 + Hash(SEED, n, "len", 5)
                \* each of the three is an array or a number
                one(what) == Hash(SEED, n, what \o "one", 3) = 0
                vec(what, lo, span, d) == Vec([j \in 1..(IF one(what) THEN 1 ELSE len) |-> Dec(lo + Hash(SEED, n, what \o Str(j), span), d)])
            IN With(With(With(With(With(With(Common(n), "shape", H(n, "sh", <<"list", "tuple", "array">>)),
                 "mag", vec("mag", 4500, 4000, 3)), "dist_rup", IF Hash(SEED, n, "dd", 2) = 0 THEN vec("dist", 1, 300, 0) ELSE vec("dist", 5, 30000, 2)),
                 "v_s30", IF Hash(SEED, n, "vd", 2) = 0 THEN vec("v", 150, 1800, 0) ELSE vec("v", 15000, 180000, 2)),
                 "s", H(n, "reg", <<[region |-> "Japan", event_type |-> "interface"], [region |-> "Japan", event_type |-> "slab"],
                                    [region |-> "Taiwan", event_type |-> "slab"], [region |-> "South America", event_type |-> "interface"],
                                    [region |-> "New Zealand", event_type |-> "slab"], [region |-> "Taiwan", event_type |-> "interface"]>>)),
                 "e", IF Hash(SEED, n, "eb", 2) = 0 THEN H(n, "e", <<"0.75", "0.95", "0.5", "0.3", "0.8", "0.97", "0.62">>) ELSE EnergyBetween(n, 1))
      [] Fns[arFn] = "site" ->
            With(With(With(Common(n), "m", H(n, "model", <<"ASK14", "CY14">>)), "ref",
                      Vec([j \in 1..26 |-> Dec(1 + Hash(SEED, n, 700 + j, 900), 3)])),
                 "v", Dec(1500 + Hash(SEED, n, "v", 12000), 1))
Emitted == arSample > 0 => Emit(PLAN, Event(17 * arSample + arFn))
=============================================================================
