------------------------------- MODULE Edges --------------------------------
(* Both sides of every internal boundary, and sweeps in search of others.    *)
EXTENDS Scenarios, Sweeps

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 6)
NSWEEPS == EnvInt("NSWEEPS", 1)

VARIABLES egModel, egParam, egMark, egSample

\* boundaries of the models, with those of their limits left out
Boundaries(m, p) == LET r == Par(m, p) IN
    SelectSeq(Marks(m, p), LAMBDA b : (IsNone(r.lo) \/ b > r.lo) /\ (IsNone(r.hi) \/ b < r.hi)
                                      /\ (b > 0 \/ p \in {"dist_x", "dpp_centered"}))
\* mark 0: a sweep
Init == /\ egModel \in {MODELS[i] : i \in 1..Len(MODELS)}
        /\ egParam = "none" /\ egMark = 0 /\ egSample = 0
Next == /\ egParam = "none" /\ egModel' = egModel
        /\ \E i \in 1..Len(SweptNames(egModel)) :
             /\ egParam' = SweptNames(egModel)[i]
             /\ egMark' \in 0..Len(Boundaries(egModel, SweptNames(egModel)[i]))
             /\ egSample' \in 1..(IF egMark' = 0 THEN NSWEEPS ELSE NSAMPLES)
LOCAL Tiny(p) == CASE p = "v_s30" -> "1e-6" [] OTHER -> "1e-8"
Base == Rooted(egModel, egParam, Sample(egModel, 131 * egSample + egMark + Hash(1, egModel, egParam, 1000), "dom"))
Emitted == egSample > 0 =>
    LET r == Par(egModel, egParam)
        b == Boundaries(egModel, egParam)[egMark]
        at(v) == With(Base, egParam, v)
        common == [m |-> egModel, p |-> egParam, opt |-> OptGrid(egModel)[1 + Hash(SEED, egSample, "opt", Len(OptGrid(egModel)))], s |-> Base]
    IN IF egMark = 0
       THEN Sweepable(egModel, egParam, Base) => Emit(PLAN, SweepOf(egModel, egParam, Base, common.opt))
       ELSE Physical(egModel, at(b)) =>
            Emit(PLAN, With(With(With(common, "k", "edge"), "tag", egParam), "at",
                       <<DecAdd(b, "-" \o Tiny(egParam)), b, DecAdd(b, Tiny(egParam))>>))
=============================================================================
