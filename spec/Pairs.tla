------------------------------- MODULE Pairs --------------------------------
(* Pairs of scenarios that differ in distance or in magnitude alone, and     *)
(* ladders of such scenarios from near to far and from small to large.       *)
EXTENDS Scenarios, Trends

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 60)
NLADDERS == EnvInt("NLADDERS", 30)
KIND == "pair"

VARIABLES prModel, prSample, prWhat, prStep

Factors == <<"1.02", "1.3", "2", "4">>
Increments == <<"0.01", "0.1", "0.5", "1.3">>

\* step 1..4: a pair; step 5: a ladder
Init == /\ prModel \in {MODELS[i] : i \in 1..Len(MODELS)} /\ prSample \in 1..MaxR(NSAMPLES, NLADDERS)
        /\ prWhat = "none" /\ prStep = 0
Next == prStep = 0 /\ prWhat' \in Trended(prModel) /\ prStep' \in (IF prSample <= NSAMPLES THEN 1..4 ELSE {}) \cup (IF prSample <= NLADDERS THEN {5} ELSE {})
        /\ UNCHANGED <<prModel, prSample>>

\* without rupture directivity; CB14: hypocenters above 7 km; soft soils respond nonlinearly, those of AB06 more so
LOCAL Shallow(s) == IF prModel = "CB14" /\ prWhat = "magnitude" /\ (IsNone(s.depth_hyp) \/ s.depth_hyp > 7) THEN With(s, "depth_hyp", "7") ELSE s
LOCAL Plain(s) == LET a == IF HasKey(s, "dpp_centered") THEN With(s, "dpp_centered", "None") ELSE s
                      stiff == IF prModel = "AB06" THEN 760 ELSE 400
                  IN IF (prWhat = "magnitude" \/ prModel \in {"CB14", "AGA16", "CH14"}) /\ HasKey(s, "v_s30") /\ s.v_s30 < stiff THEN With(a, "v_s30", DecAdd(Str(stiff), Str(s.v_s30))) ELSE a
Pair == LET s0 == Shallow(Plain(Footwall(Sample(prModel, prSample, "dom"))))
            far == Far(s0, Dec(600 + Hash(SEED, prSample, "far", 900), 1), 1)
        IN IF prWhat = "magnitude"
           THEN <<far, With(far, "mag", DecAdd(Str(far.mag), Increments[1 + (prStep % 4)]))>>
           ELSE <<s0, Scale(s0, Factors[1 + (prStep % 4)], 1)>>
\* the rungs of a ladder: distances from 1 to 200 km, or magnitudes up to 8.5
LOCAL Main(s) == LET q == SelectSeq(<<"dist_rup", "dist_jb", "dist_hyp", "dist_epi">>, LAMBDA p : Has(s, p) /\ s[p] > 0)
                 IN IF Len(q) = 0 THEN 1 ELSE s[q[1]]
LOCAL Rungs ==
    LET s0 == Pair[1]
        off(j) == Hash(SEED, prSample, "rung" \o Str(j), 100)
    IN IF prWhat = "magnitude"
       THEN Vec([j \in 1..26 |-> With(s0, "mag", Dec(350 + 20 * j + (off(j) % 20), 2))])
       ELSE Vec([j \in 1..27 |-> Scale(s0, Exp(((j - 1) + off(j) / 110) * "0.2") / Main(s0), 1)])
LOCAL Ladder == SelectSeq(Rungs, LAMBDA s : Fits(prModel, prWhat, s))
EmittedLadder == prStep = 5 /\ Physical(prModel, Pair[1]) /\ ~Excepted(prModel, prWhat, Pair[1]) /\ Len(Ladder) > 1 =>
    Emit(PLAN, [k |-> "ladder", m |-> prModel, s |-> Pair[1], rungs |-> Ladder, opt |-> EmptyRec, tag |-> prWhat])
Emitted == prStep \in 1..4 /\ Fits(prModel, prWhat, Pair[2]) /\ Physical(prModel, Pair[1]) /\ ~Excepted(prModel, prWhat, Pair[1]) =>
    Emit(PLAN, [k |-> KIND, m |-> prModel, s |-> Pair[1], other |-> Pair[2], opt |-> EmptyRec, tag |-> prWhat])
=============================================================================
