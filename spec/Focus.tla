------------------------------- MODULE Focus --------------------------------
(* Where to look more closely: the observations that depart from what the    *)
(* equations answer.  A departure alone breaks no relation between runs, but *)
(* where there is none, the relations hold as they do of the equations; so   *)
(* each departure is surrounded by further events.                           *)
EXTENDS Answers, Trends, Sweeps

OBS == Env("OBS", "obs.ndjson")
PLAN == Env("PLAN", "plan.ndjson")
Obs == LoadNd(OBS)
NOBS == Len(Obs)

Departs(m, s, opt, o) ==
    IF Get(o, "exc", "?") # "None" THEN FALSE
    ELSE LET w == Answer(m, s, opt) IN
         w.exc = "None" /\ (NearSeqs("y", o.y, w.y, "1e-8") # Ok \/ (m \notin {"PR23", "PR24"} /\ NearSeqs("sd", o.sd, w.sd, "1e-8") # Ok))

(* ---- around a departure from a trend --------------------------------------- *)
LOCAL Near60(s, what) == IF what = "magnitude" THEN Vec([j \in 1..61 |-> With(s, "mag", DecAdd(Str(s.mag), Dec(j - 31, 2)))])
                         ELSE Vec([j \in 1..61 |-> Scale(s, Exp((j - 31) * "0.008"), 1)])
LOCAL Near30(s, what) == IF what = "magnitude" THEN Vec([j \in 1..31 |-> With(s, "mag", DecAdd(Str(s.mag), Dec(5 * (j - 16), 4)))])
                         ELSE Vec([j \in 1..31 |-> Scale(s, Exp((j - 16) * "0.0005"), 1)])
LOCAL Fitting(m, what, q) == SelectSeq(q, LAMBDA s : Fits(m, what, s))
LOCAL LadderOf(m, what, q) == Len(q) > 1 => Emit(PLAN, [k |-> "ladder", m |-> m, s |-> q[1], rungs |-> q, opt |-> EmptyRec, tag |-> what])
LOCAL Laddered(m, what, s) == /\ LadderOf(m, what, Fitting(m, what, Near60(s, what)))
                              /\ LadderOf(m, what, Fitting(m, what, Near30(s, what)))

(* ---- around a departure at a boundary or on a sweep ------------------------- *)
LOCAL Swept(m, s, opt) ==
    \A i \in 1..Len(SweptNames(m)) : LET p == SweptNames(m)[i]
                                         b == Rooted(m, p, s)
                                     IN Sweepable(m, p, b) => Emit(PLAN, SweepOf(m, p, b, opt))

LOCAL Probed(e) == SelectSeq(e.o.probes, LAMBDA q : Departs(e.m, With(e.s, e.p, q.at), e.opt, q.o))
LOCAL Around(e) ==
    CASE e.k = "pair" -> /\ Departs(e.m, e.s, e.opt, e.o.a) => Laddered(e.m, e.tag, e.s)
                         /\ Departs(e.m, e.other, e.opt, e.o.b) => Laddered(e.m, e.tag, e.other)
      [] e.k = "ladder" ->
            LET q == SelectIdx(Vec([j \in 1..Len(e.rungs) |-> Departs(e.m, e.rungs[j], e.opt, e.o[j])]))
            IN \A j \in 1..Len(q) : (j = 1 \/ j = Len(q)) => Laddered(e.m, e.tag, e.rungs[q[j]])
      [] e.k \in {"sweep", "edge"} /\ HasKey(e.o, "probes") ->
            LET q == Probed(e) IN Len(q) > 0 => Swept(e.m, With(e.s, e.p, Str(q[1].at)), e.opt) /\ Swept(e.m, With(e.s, e.p, Str(q[Len(q)].at)), e.opt)
      [] OTHER -> TRUE

VARIABLE focused
LOCAL STRANDS == 64
Init == focused \in 1..(IF NOBS < STRANDS THEN NOBS ELSE STRANDS)
Next == focused + STRANDS <= NOBS /\ focused' = focused + STRANDS
Looked == ~HasKey(Obs[focused].o, "driver") => Around(Obs[focused])
=============================================================================
