------------------------------- MODULE Sweeps -------------------------------
(* Scenarios in which one parameter is varied from end to end.               *)
EXTENDS Models

Varied == {"mag", "dist_rup", "dist_jb", "dist_hyp", "dist_epi", "dist_x", "dist_y0", "depth_1_0", "depth_2_5", "depth_tor",
           "depth_bor", "depth_hyp", "dip", "v_s30", "width", "dpp_centered", "dist_crjb"}
SweptNames(m) == SelectSeq(Vec([i \in 1..Len(Params(m)) |-> Params(m)[i].n]), LAMBDA n : n \in Varied)
SweepLo(m, p, r) == CASE p = "dist_x" -> -60 [] p = "dist_rup" /\ m = "CB14" -> 1 [] p = "dpp_centered" -> -12 [] p = "dip" -> 16 [] p = "v_s30" -> IF IsNone(r.lo) THEN 110 ELSE r.lo
                    [] p = "mag" -> IF IsNone(r.lo) THEN 4 ELSE r.lo
                    [] p = "width" -> 2 [] p = "depth_bor" -> "14.01" [] OTHER -> IF IsNone(r.lo) \/ r.lo < "0.01" THEN "0.01" ELSE r.lo
SweepHi(m, p, r) == CASE p = "dist_x" -> 80 [] p = "dpp_centered" -> 12 [] p = "dip" -> "89.9" [] p = "v_s30" -> IF IsNone(r.hi) THEN 2500 ELSE r.hi
                    [] p = "mag" -> IF m = "TP05" THEN "8.2" ELSE IF IsNone(r.hi) THEN "8.5" ELSE r.hi
                    [] p = "width" -> 60 [] p \in {"depth_bor"} -> 30 [] p = "depth_1_0" -> 2
                    [] p = "depth_tor" -> IF m = "CB14" THEN 11 ELSE 20
                    [] p = "depth_hyp" -> IF m = "AGA16" THEN 180 ELSE 25
                    [] p = "dist_y0" -> 40 [] p = "dist_crjb" -> 25 [] OTHER -> IF IsNone(r.hi) THEN 300 ELSE r.hi
\* the scenario in which parameter p of scenario s of model m can be varied
Rooted(m, p, s) ==
    LET \* the deepest top of rupture allowed leaves the bottom below it
        t == IF m = "CB14" /\ p # "depth_tor" /\ ~IsNone(s.depth_tor) /\ s.depth_tor > 11 THEN With(s, "depth_tor", "6.5") ELSE s
        u == IF IsNone(Get(t, p, "None")) THEN With(t, p, "1") ELSE t
    \* CB14 on the hanging wall: distances that a rupture can have
    IN IF m # "CB14" THEN u
       ELSE CASE p = "dist_jb" -> With(u, "dist_rup", "300")
              [] p = "dist_rup" -> With(u, "dist_jb", "1")
              [] OTHER -> IF u.dist_jb > u.dist_rup THEN With(u, "dist_rup", DecAdd(Str(u.dist_jb), "0.5")) ELSE u
SweepOf(m, p, s, opt) == LET r == Par(m, p) IN
    [k |-> "sweep", m |-> m, p |-> p, opt |-> opt, s |-> s, tag |-> p, lo |-> SweepLo(m, p, r), hi |-> SweepHi(m, p, r)]
Sweepable(m, p, s) == LET r == Par(m, p) IN Physical(m, With(s, p, SweepLo(m, p, r))) /\ Physical(m, With(s, p, SweepHi(m, p, r)))
=============================================================================
