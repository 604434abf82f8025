------------------------------ MODULE Conform -------------------------------
(* Judges the observations of the implementation, one after the other.       *)
(* Every observation gets a verdict: the sequence of the clauses it breaks.  *)
EXTENDS Session

OBS == Env("OBS", "obs.ndjson")
OUT == Env("OUT", "verdicts.ndjson")
Obs == LoadNd(OBS)
NOBS == Len(Obs)

Judgement(e) ==
    IF HasKey(e.o, "driver") THEN Bad("unobservable", e.o.driver, "an observation")
    \* the private names on which the model of a user rests are gone
    ELSE IF HasKey(e.o, "skipped") THEN Judge(e.m = "USER", "skipped", e.m, "an observation")
    ELSE IF PROP = "C27" THEN Quiet(e)
    ELSE CASE e.k = "med" -> Equations(e)
           [] e.k = "pol" -> Policing(e)
           [] e.k = "fin" -> InDomain(e)
           [] e.k = "read" -> Reading(e)
           [] e.k = "interp" -> Interpolation(e)
           [] e.k = "fill" -> Filling(e)
           [] e.k = "est" -> Estimator(e)
           [] e.k = "site" -> SiteTerm(e)
           [] e.k = "energy" -> EnergyAt(e)
           [] e.k = "pair" -> Monotone(e)
           [] e.k = "ladder" -> MonotoneLadder(e)
           [] e.k = "edge" -> Boundary(e)
           [] e.k = "sweep" -> Sweep(e)
           [] e.k = "inv" -> Disguised(e)
           [] e.k = "arr" -> Elementwise(e)
           [] e.k = "cor" -> Correlations(e)
           [] e.k = "cms" -> Conditional(e)
           [] e.k = "req" -> Required(e)
           [] e.k = "cat" -> Catalogued(e)
           [] e.k = "scen" -> Heaped(e)
           [] e.k = "session" -> Sessions(e)
           [] e.k = "threads" -> Threads(e)

(* ---- the judging, as a transition system: 64 strands through the observations *)
VARIABLE position
LOCAL STRANDS == 64
Init == position \in 1..(IF NOBS < STRANDS THEN NOBS ELSE STRANDS)
Next == position + STRANDS <= NOBS /\ position' = position + STRANDS
Judged == LET v == Judgement(Obs[position]) IN Emit(OUT, [i |-> Obs[position].i, bad |-> v])
=============================================================================
