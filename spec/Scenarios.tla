----------------------------- MODULE Scenarios ------------------------------
(* The scenarios that are explored: pseudo-random samples of the values of   *)
(* interest and of lattices, as records of decimal strings and options.      *)
EXTENDS Models

SEED == EnvInt("SEED", 1)
MODELS == EnvSeq("MODELS")

LOCAL ParNames(m) == Vec([i \in 1..Len(Params(m)) |-> Params(m)[i].n])
\* the grids of the explored models, evaluated once
GridSeq == ToRec([m \in {MODELS[i] : i \in 1..Len(MODELS)} |->
              ToRec([p \in {ParNames(m)[i] : i \in 1..Len(ParNames(m))} |-> Grid(m, p)])])
LOCAL Pick(q, h) == q[1 + (h % Len(q))]

\* A value of parameter r for sample n.  style: "min" leaves options out,
\* "all" gives everything, "dom" stays within the recommended domain
LOCAL DrawNum(m, r, n) ==
    LET L == Lattices(m, r.n)
        l == L[1 + Hash(SEED, n, r.n \o "l", Len(L))]
    IN Dec(l[1] + Hash(SEED, n, r.n \o "v", 1 + l[2] - l[1]), l[3])
LOCAL Within(r, v) == (IsNone(r.lo) \/ v >= r.lo) /\ (IsNone(r.hi) \/ v <= r.hi)
LOCAL Draw(m, r, n, style) ==
    LET h == Hash(SEED, n, r.n \o "h", 100)
        g == SelectSeq(GridSeq[m][r.n], LAMBDA v : ~IsNone(v) /\ ~Strange(r, v) /\ (r.k = "C" \/ style # "dom" \/ Within(r, v)))
        gv == Pick(g, Hash(SEED, n, r.n \o "g", 10000))
    IN IF ~r.req /\ style # "all" /\ (style = "min" \/ Hash(SEED, n, r.n \o "o", 100) < 40) THEN "None"
       ELSE IF r.k = "C" THEN IF h < 3 /\ style = "any" /\ UnknownOk(m, r.n) THEN Pick(Unlisted(r), Hash(SEED, n, r.n \o "x", 1000)) ELSE gv
       ELSE IF h < 35 THEN gv
       ELSE LET v == DrawNum(m, r, n) IN IF style = "dom" /\ ~Within(r, v) THEN gv ELSE v
\* needed combinations of inputs
Repair(m, s, n) ==
    CASE m = "ASK14" /\ Same(s.on_hanging_wall, TRUE) /\ IsNone(s.dist_x) -> With(s, "dist_x", "7.5")
      [] m = "AGA16" ->
            IF s.event_type = "intraslab"
            THEN With(With(s, "dist_hyp", IF IsNone(s.dist_hyp) THEN "120" ELSE s.dist_hyp),
                      "depth_hyp", IF IsNone(s.depth_hyp) THEN "50" ELSE s.depth_hyp)
            ELSE With(s, "dist_rup", IF IsNone(s.dist_rup) THEN "90" ELSE s.dist_rup)
      [] m = "CH14" -> With(s, "dist_rup", IF IsNone(s.dist_rup) THEN "90" ELSE s.dist_rup)
      [] OTHER -> s
Sample(m, n, style) ==
    LET ps == Params(m)
        par(nm) == ps[CHOOSE i \in 1..Len(ps) : ps[i].n = nm]
        s == ToRec([nm \in {ps[i].n : i \in 1..Len(ps)} |-> Draw(m, par(nm), n, style)])
    IN Repair(m, s, n)
\* extra constructor arguments
OptGrid(m) ==
  CASE m = "AGA16" -> <<EmptyRec, [adjust_c1 |-> "-0.3"], [adjust_c1 |-> "0.25", scale_atten |-> "1.2"],
                       [scale_atten |-> "0.6"], [adjust_c1 |-> "0"], [scale_atten |-> "0"],
                       [adjust_c1 |-> Vec([i \in 1..23 |-> Dec(Hash(i, "c1", "a", 120) - 60, 2)])]>>
                       \o Vec([n \in 1..3 |-> [adjust_c1 |-> Vec([i \in 1..23 |-> Dec(Hash(SEED * 10 + n, i, "c1", 1800) - 900, 3)]),
                                               scale_atten |-> Dec(Hash(SEED, n, "scale", 300), 2)]])
                       \o <<[adjust_c1 |-> Dec(Hash(SEED, "c1", "b", 1600) - 800, 3)]>>
    [] m = "CH14" -> <<EmptyRec, [scale_atten |-> "1.3"], [scale_atten |-> "0.5"], [scale_atten |-> "0"],
                       [scale_atten |-> Dec(Hash(SEED, 1, "scale", 300), 2)], [scale_atten |-> Dec(Hash(SEED, 2, "scale", 3000), 3)]>>
    [] m = "AB20" -> <<[pga |-> "0.1"], [pga |-> "0.55"], [psa_1s |-> "0.08"], [psa_1s |-> "0.6"],
                      [pga |-> "0.2", psa_1s |-> "0.3"]>>
                     \o Vec([n \in 1..6 |-> LET v == Dec(1 + Hash(SEED, n, "motion", 40000), IF n \in {1, 4} THEN 6 ELSE 4)
                                             IN IF n <= 3 THEN [pga |-> v] ELSE [psa_1s |-> v]])
    [] OTHER -> <<EmptyRec>>

(* ---- energies --------------------------------------------------------------- *)
Thresholds == <<"0.10","0.15","0.20","0.25","0.30","0.35","0.40","0.45","0.50","0.55","0.60","0.65","0.70","0.75",
                "0.80","0.85","0.90","0.95">>
\* a threshold between the supported ones: near the lower or the upper one
EnergyBetween(n, j) == LET k == 1 + Hash(SEED, n, 100 + j, 17)
                     d == IF Hash(SEED, n, 200 + j, 2) = 0 THEN 2 + Hash(SEED, n, 300 + j, 22) ELSE 27 + Hash(SEED, n, 300 + j, 21)
                 IN DecAdd(Thresholds[k], Dec(d, 3))
=============================================================================
