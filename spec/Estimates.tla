----------------------------- MODULE Estimates ------------------------------
(* Calls of the public estimators of depths, widths and periods.             *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 60)

VARIABLES esFn, esIndex

Fns == <<"ASK14.calc_depth_1_0", "BA19.calc_depth_1_0", "CY14.calc_depth_1_0", "AS16.calc_depth_1_0",
         "ASK14.calc_width", "ASK14.calc_depth_tor", "CY14.calc_depth_tor", "CB14.calc_depth_2_5", "CB14.calc_depth_hyp",
         "CB14.calc_width", "CB14.calc_depth_bor", "AB20.ln_period_pgv">>
LOCAL H(n, what, q) == q[1 + Hash(SEED, n, what, Len(q))]
LOCAL V(n) == IF Hash(SEED, n, "vk", 3) = 0 THEN H(n, "v1", <<"180", "200", "300", "360", "760", "1130", "1180", "1360", "1500", "2000">>)
              ELSE Dec(1000 + Hash(SEED, n, "v2", 19000), 1)
LOCAL M(n) == IF Hash(SEED, n, "mk", 3) = 0
              THEN H(n, "m1", <<"3", "4.97", "5", "5.849", "5.85", "7.2", "7.19", "7.21", "6.75", "8.5", "7", "8", "7.33">>)
              ELSE Dec(300 + Hash(SEED, n, "m2", 560), 2)
LOCAL DIP(n) == IF Hash(SEED, n, "dk", 3) = 0 THEN H(n, "d1", <<"15", "30", "40", "45", "60", "90">>) ELSE Dec(15 + Hash(SEED, n, "d2", 76), 0)
LOCAL TOR(n) == IF Hash(SEED, n, "tk", 4) = 0 THEN "0" ELSE Dec(Hash(SEED, n, "t2", 100), 1)
LOCAL BOR(n) == Dec(105 + Hash(SEED, n, "b2", 200), 1)
LOCAL W(n) == Dec(5 + Hash(SEED, n, "w2", 500), 1)
LOCAL R(n) == H(n, "r", <<"california", "japan", "global", "italy", "china">>)
LOCAL MECH(n) == H(n, "mech", <<"SS", "NS", "RS", "U">>)
\* arguments by name; "None" is passed, "omit" leaves the argument out
LOCAL Args(f, n) ==
  CASE f = "ASK14.calc_depth_1_0" -> [v_s30 |-> V(n), region |-> H(n, "om", <<R(n), R(n), "omit">>)]
    [] f = "AS16.calc_depth_1_0" -> [v_s30 |-> V(n), region |-> H(n, "om", <<R(n), R(n), "omit">>)]
    [] f = "BA19.calc_depth_1_0" -> [v_s30 |-> V(n)]
    [] f = "CY14.calc_depth_1_0" -> [v_s30 |-> V(n), region |-> R(n)]
    [] f = "ASK14.calc_width" -> [mag |-> M(n), dip |-> DIP(n)]
    [] f = "ASK14.calc_depth_tor" -> [mag |-> M(n)]
    [] f = "CY14.calc_depth_tor" -> [mag |-> M(n), mechanism |-> MECH(n)]
    [] f = "CB14.calc_depth_2_5" ->
         (CASE Hash(SEED, n, "how", 4) = 0 -> [v_s30 |-> V(n), region |-> R(n)]
            [] Hash(SEED, n, "how", 4) = 1 -> [v_s30 |-> "None", region |-> R(n), depth_1_0 |-> H(n, "z", <<"0.01", "0.1", "0.4", "1.5">>)]
            [] Hash(SEED, n, "how", 4) = 2 -> [v_s30 |-> V(n), region |-> H(n, "om", <<R(n), "omit">>), depth_1_0 |-> "0.3"]
            [] OTHER -> H(n, "zz", <<[v_s30 |-> "None", region |-> R(n)], [depth_1_0 |-> "0.2", region |-> R(n)]>>))
    [] f = "CB14.calc_depth_hyp" -> [mag |-> M(n), dip |-> DIP(n), depth_tor |-> TOR(n), depth_bor |-> BOR(n)]
    [] f = "CB14.calc_width" -> [mag |-> M(n), dip |-> DIP(n), depth_tor |-> TOR(n), depth_bot |-> H(n, "omb", <<BOR(n), BOR(n), "omit">>)]
    [] f = "CB14.calc_depth_bor" -> [depth_tor |-> TOR(n), dip |-> DIP(n), width |-> W(n)]
    [] f = "AB20.ln_period_pgv" -> [mag |-> M(n)]
Init == esFn \in 1..Len(Fns) /\ esIndex = 0
Next == esIndex < NSAMPLES /\ esIndex' = esIndex + 1 /\ esFn' = esFn
Emitted == esIndex > 0 =>
    Emit(PLAN, [k |-> "est", m |-> "", tag |-> Fns[esFn], fn |-> Fns[esFn], args |-> Args(Fns[esFn], 100 * esIndex + esFn),
                how |-> <<"position", "keyword">>[1 + Hash(SEED, esIndex, "pk", 2)]])
=============================================================================
