------------------------------ MODULE Explore -------------------------------
(* Model inputs as a transition system: from sampled scenarios, single       *)
(* parameters are changed to their values of interest, up to DEPTH times.    *)
(* Every state that the equations are defined for is emitted as an event of  *)
(* the plan, to be replayed on the implementation.                           *)
EXTENDS Scenarios

KIND == Env("KIND", "med")
PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 100)
NBASES == EnvInt("NBASES", 2)
DEPTH == EnvInt("DEPTH", 1)
STYLE == Env("STYLE", "any")
POLICING == KIND = "pol"     \* also leave out required inputs and go beyond the limits

VARIABLES model, scen, args, left, origin
vars == <<model, scen, args, left, origin>>

LOCAL StyleOf(n) == IF STYLE # "any" THEN STYLE ELSE IF n = 1 THEN "min" ELSE IF n = 2 THEN "all" ELSE "any"
\* the sampled scenarios are spread over workers: first a number, then its sample
Init == /\ model \in {MODELS[k] : k \in 1..Len(MODELS)}
        /\ scen \in 1..NSAMPLES
        /\ args = EmptyRec /\ left = -1 /\ origin = "none"
Draw == /\ left = -1
        /\ model' = model
        /\ scen' = Sample(model, scen, StyleOf(scen))
        /\ args' = LET q == OptGrid(model) IN q[1 + Hash(SEED, scen, "opt", Len(q))]
        /\ left' = IF scen <= NBASES THEN DEPTH ELSE 0
        /\ origin' = IF scen <= NBASES THEN "base" ELSE "sample"
SetParam(p) == \E i \in 1..Len(GridSeq[model][p]) :
                  LET v == GridSeq[model][p][i] IN
                  /\ ~Same(scen[p], v)
                  /\ (STYLE = "dom" => ~Strange(Par(model, p), v) /\ LET r == Par(model, p) IN
                        IsNone(v) \/ r.k = "C" \/ ((IsNone(r.lo) \/ v >= r.lo) /\ (IsNone(r.hi) \/ v <= r.hi)))
                  /\ scen' = With(scen, p, v)
SetOpt == \E i \in 1..Len(OptGrid(model)) :
             ~Same(OptGrid(model)[i], args) /\ args' = OptGrid(model)[i] /\ scen' = scen
\* for policing
DropRequired(p) == POLICING /\ ~IsNone(scen[p]) /\ Par(model, p).req /\ scen' = With(scen, p, "None")
LOCAL Step(p) == CASE p = "v_s30" -> "40" [] p \in {"mag", "pga_ref"} -> "0.3" [] OTHER -> "2.5"
LOCAL Beyonds(p) == LET r == Par(model, p) IN
    SelectSeq((IF IsNone(r.lo) THEN <<>> ELSE <<DecAdd(Str(r.lo), "-1e-9"), DecAdd(Str(r.lo), "-" \o Step(p))>>)
              \o (IF IsNone(r.hi) THEN <<>> ELSE <<DecAdd(Str(r.hi), "1e-9"), DecAdd(Str(r.hi), Step(p))>>),
              LAMBDA v : v >= -1 /\ (p = "dip" => v <= 90))
Beyond(p) == /\ POLICING /\ Par(model, p).k = "N"
             /\ \E i \in 1..Len(Beyonds(p)) : scen' = With(scen, p, Beyonds(p)[i])
Change == /\ left > 0
          /\ left' = left - 1
          /\ origin' = "grid"
          /\ model' = model
          /\ \/ \E k \in 1..Len(Params(model)) :
                  /\ SetParam(Params(model)[k].n) \/ DropRequired(Params(model)[k].n) \/ Beyond(Params(model)[k].n)
                  /\ args' = args
             \/ SetOpt
Next == Draw \/ Change

(* ---- the events ---------------------------------------------------------- *)
LOCAL Names == LET ps == Params(model) IN Vec([i \in 1..Len(ps) |-> ps[i].n])
LOCAL Differs(s) == \E i \in 1..Len(Names) : ~Same(s[Names[i]], scen[Names[i]])
\* the scenario with its defaults given, and that with the limits instead of the values beyond
LOCAL AsGiven == ToRec(Policed(model, scen))
LOCAL AtLimit == ToRec([p \in {Names[i] : i \in 1..Len(Names)} |->
    LET r == Par(model, p)
        v == Verdict(scen, r)
    IN IF v = "low" THEN Str(r.lo) ELSE IF v = "high" THEN Str(r.hi) ELSE scen[p]])
LOCAL Plain == [k |-> KIND, m |-> model, s |-> scen, opt |-> args, tag |-> origin]
LOCAL ForPolicing ==
    LET a == IF ~Missing(model, scen) /\ Differs(AsGiven) /\ ~Missing(model, AsGiven) THEN With(Plain, "given", AsGiven) ELSE Plain
    IN IF Differs(AtLimit) THEN With(a, "limit", AtLimit) ELSE a
\* one of the estimated parameters
LOCAL Estimated == LET c == Completed(model, scen)
                       q == ToRec(Policed(model, scen))
                   IN SelectSeq(Names, LAMBDA n : IsNone(q[n]) /\ ~IsNone(c[n]))
LOCAL ForFilling == LET q == Estimated IN
    IF Len(q) = 0 THEN Plain
    ELSE With(With(Plain, "all", q), "one", q[1 + Hash(SEED, Str(scen.mag), "one", Len(q))])
\* Evaluated once per distinct state
Emitted == left >= 0 /\ (Physical(model, scen) \/ Missing(model, scen)) =>
    Emit(PLAN, IF POLICING THEN ForPolicing ELSE IF KIND = "fill" THEN ForFilling ELSE Plain)
=============================================================================
