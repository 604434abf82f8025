---------------------------- MODULE JudgeModels -----------------------------
(* What the models report for a scenario: equations, policing, reading,      *)
(* interpolation, estimates, site terms, durations at energies.              *)
EXTENDS Verdicts, Splines

(* ---- what a call does besides answering: C27 ------------------------------ *)
\* within the recommended domain, and possible: every parameter in its limits
Within(m, s) ==
    /\ \A i \in 1..Len(Params(m)) : Verdict(s, Params(m)[i]) = "ok"
    /\ Outcome(m, s) = "None" /\ Physical(m, s)
    \* the rupture lies in the crust
    \* the published total of KS06 may be negative near the source on rock
    /\ m = "KS06" => LET q == Ctx(m, Completed(m, s), EmptyRec) IN \A r \in 1..4 : IsFinite(LnMed(m, q, r))
    /\ m = "CB14" => LET x == Completed(m, s) IN x.depth_tor < x.depth_bot /\ x.depth_tor < x.depth_bor
\* the lower fractile of PR23 does not exist where its deviation exceeds its transformed median
LOCAL Defined(e) == (e.k = "energy" /\ e.m = "PR23") => (~PR_EnergyOk(e.e) \/ LET d == PR23_Dur(Completed(e.m, e.s), e.e) IN IsFinite(d[3]))
Quiet(e) ==
    Judge(Len(e.o.process) = 0, "state of the process", e.o.process, "as before")
    \o Judge(e.o.printed = "", "output", e.o.printed, "none")
    \o (IF ~HasKey(e, "s") \/ e.m = "" \/ (Within(e.m, e.s) /\ Defined(e)) THEN Judge(Len(e.o.noise) = 0, "numerical warnings", e.o.noise, "none") ELSE Ok)

(* ---- the equations: C08 - C17 ------------------------------------------ *)
LOCAL WantMed == PROP # "C09"
LOCAL WantStd == PROP # "C08"
LOCAL Im(q, e, name, row, scale) ==
    IF row = 0 THEN Ok
    ELSE (IF WantMed THEN ValueIs(name, e.o.im[name], LnMed(e.m, q, row) + Ln(scale)) ELSE Ok)
         \o (IF WantStd THEN NumberIs("sd_" \o name, e.o.im["sd_" \o name], LnStd(e.m, q, row)) ELSE Ok)
\* o: what was observed for model m and scenario s
Responses(m, s, opt, o) ==
    LET out == Outcome(m, s) IN
    IF out # "None" THEN Judge(o.exc = out, "outcome", o.exc, out)
    ELSE IF o.exc # "None" THEN Bad("outcome", o.exc \o " " \o o.msg, "None")
    ELSE LET q == Ctx(m, Completed(m, s), opt)
             im == Ims(m)
             first == Reported(m)[1]
             n == Reported(m)[2] - first + 1
             row(j) == o.rows[j] + first - 1
             rows == 1..Len(o.rows)
             ee == [m |-> m, o |-> o]
         IN IF ~Same(o.n, <<n, n, n>>) THEN Bad("shape", o.n, n)
            ELSE Flat(Vec([j \in rows |->
                 (IF WantMed THEN ValueIs("median " \o Str(row(j)), o.y[j], LnMed(m, q, row(j))) ELSE Ok)
                 \o (IF WantStd THEN NumberIs("sigma " \o Str(row(j)), o.sd[j], LnStd(m, q, row(j))) ELSE Ok)]))
            \o (IF HasKey(o, "im")
                THEN Im(q, ee, "pga", im.pga, 1) \o Im(q, ee, "pgv", im.pgv, im.scale) \o Im(q, ee, "pgd", im.pgd, im.scale)
                ELSE Ok)
            \o (IF m \in {"PR23", "PR24"} /\ WantStd
                THEN LET d == IF m = "PR23" THEN PR23_Dur(q.x, "0.75") ELSE PR24_Dur(q.x, "0.75")
                     IN Each(3, LAMBDA j : ValueIs("triple " \o Str(j), o.pm[j], Ln(d[j])))
                ELSE Ok)
            \o (IF m \in {"KS06", "AS16"} THEN Judge(Same(o.fields, <<Fields(m), Fields(m)>>), "fields", o.fields, Fields(m)) ELSE Ok)
            \o (IF m = "GA11" THEN Judge(SameVal(o.pga_ref, s.pga_ref), "reference PGA", o.pga_ref, s.pga_ref) ELSE Ok)
Equations(e) == Responses(e.m, e.s, e.opt, e.o)

(* ---- policing of inputs: C02 ------------------------------------------- *)
LOCAL Names(ps) == Vec([i \in 1..Len(ps) |-> ps[i].n])
LOCAL WarnedAs(s, o, r) ==
    LET v == Verdict(s, r)
        naming == SelectSeq(o.warns, LAMBDA w : Mentions(w, r.n))
        lim == IF v = "low" THEN r.lo ELSE r.hi
    IN CASE v \in {"low", "high"} ->
              Judge(Len(naming) = 1 /\ MentionsNum(naming[1], lim), "one warning of the limit of " \o r.n, naming, lim)
         [] v = "unknown" -> Judge(Len(naming) >= 1, "warning of an unknown option of " \o r.n, naming, "a warning")
         [] OTHER -> Judge(Len(naming) = 0, "warned of a proper " \o r.n, naming, "no warning")
Policing(e) ==
    LET s == e.s
        o == e.o.first
        ps == Params(e.m)
        out == Outcome(e.m, s)
    IN Judge(o.exc = out, "outcome", o.exc \o " " \o o.msg, out)
       \o (IF Missing(e.m, s) THEN Ok ELSE
             Each(Len(ps), LAMBDA i : WarnedAs(s, o, ps[i]))
             \o Each(Len(o.warns), LAMBDA i :
                   Judge(\E j \in 1..Len(ps) : Verdict(s, ps[j]) \in {"low", "high", "unknown"} /\ Mentions(o.warns[i], ps[j].n),
                         "warning of nothing wrong", o.warns[i], "none"))
             \o (IF o.exc # "None" \/ out # "None" THEN Ok ELSE
                   LET p == ToRec(Policed(e.m, s))
                       x == Completed(e.m, s)
                       logged == Len(o.logs) > 0
                   IN Each(Len(ps), LAMBDA i : LET n == ps[i].n IN
                          IF IsNone(p[n]) /\ ~IsNone(x[n]) THEN Ok     \* an estimate (C07)
                          ELSE Judge(SameVal(Get(o.x, n, "absent"), p[n]), "value in use of " \o n, Get(o.x, n, "absent"), p[n]))
                      \o Judge(logged = Logs(e.m, x), "logging", o.logs, Logs(e.m, x))
                      \* a value beyond a limit is used as it is
                      \o (IF HasKey(e.o, "limit") /\ HasKey(o, "y")
                          THEN LET here == Responses(e.m, s, e.opt, o) IN
                               IF here # Ok /\ Responses(e.m, e.limit, e.opt, e.o.limit) = Ok THEN here ELSE Ok
                          ELSE Ok)
                      \* defaults and replaced options are as if given
                      \o (IF HasKey(e.o, "given") /\ HasKey(o, "y")
                          THEN Judge(e.o.given.exc = "None", "outcome with the defaults given", e.o.given.exc, "None")
                               \o (IF e.o.given.exc = "None"
                                   THEN NearSeqs("median as with the defaults given", o.y, e.o.given.y, "1e-9")
                                        \o NearSeqs("sigma as with the defaults given", o.sd, e.o.given.sd, "1e-9")
                                   ELSE Ok)
                          ELSE Ok)))

(* ---- the recommended domain: C21 ---------------------------------------- *)
LOCAL Positive(v) == IsFinite(v) /\ v > 0
InDomain(e) ==
    LET o == e.o
        out == Outcome(e.m, e.s)
        q == Ctx(e.m, Completed(e.m, e.s), e.opt)
        exempt(j) == e.m = "KS06" /\ ~IsFinite(LnMed("KS06", q, j))
    IN IF out # "None" THEN Judge(o.exc = out, "outcome", o.exc, out)
       ELSE IF o.exc # "None" THEN Bad("exception", o.exc \o " " \o o.msg, "None")
       ELSE Each(Len(o.y), LAMBDA j : Judge(Positive(o.y[j]) \/ exempt(j), "value " \o Str(j), o.y[j], "finite and positive"))
            \o (IF e.m \in {"PR23", "PR24"}
                THEN Each(3, LAMBDA j : Judge(Positive(o.pm[j]), "triple " \o Str(j), o.pm[j], "finite and positive"))
                ELSE Each(Len(o.sd), LAMBDA j : Judge(Positive(o.sd[j]), "deviation " \o Str(j), o.sd[j], "finite and positive")))
            \o (IF HasKey(o, "im")
                THEN LET im == Ims(e.m)
                         one(n, row) == IF row = 0 THEN Ok
                                        ELSE Judge(Positive(o.im[n]), n, o.im[n], "finite and positive")
                                             \o Judge(Positive(o.im["sd_" \o n]), "sd_" \o n, o.im["sd_" \o n], "finite and positive")
                     IN one("pga", im.pga) \o one("pgv", im.pgv) \o one("pgd", im.pgd)
                ELSE Ok)

(* ---- reading intensity measures: C05 ------------------------------------ *)
LOCAL ImNames == <<"pga", "pgv", "pgd">>
Reading(e) ==
    LET o == e.o
        im == Ims(e.m)
        n == im.last - im.first + 1
        q == Ctx(e.m, Completed(e.m, e.s), e.opt)
        seen(w) == Get(o.final, w, "absent")
        one(name, row, scale) ==
            IF row = 0
            THEN Judge(ExcOf(seen(name)) = "NotImplementedError", name \o " is not published", seen(name), "NotImplementedError")
                 \o Judge(ExcOf(seen("ln_std_" \o name)) = "NotImplementedError", "ln_std_" \o name \o " is not published",
                          seen("ln_std_" \o name), "NotImplementedError")
            ELSE ValueIs(name, seen(name), LnMed(e.m, q, row) + Ln(scale))
                 \o NumberIs("ln_std_" \o name, seen("ln_std_" \o name), LnStd(e.m, q, row))
        vectors == <<"periods", "spec_accels", "ln_stds">>
    IN IF o.exc # "None" THEN Judge(o.exc = Outcome(e.m, e.s), "outcome", o.exc, Outcome(e.m, e.s))
       ELSE Each(3, LAMBDA j : Judge(LenR(seen(vectors[j])) = n, "length of " \o vectors[j], seen(vectors[j]), n))
            \o (IF \E j \in 1..3 : LenR(seen(vectors[j])) # n THEN Ok
                ELSE Each(n, LAMBDA j : Judge(Eq(seen("periods")[j], Period(e.m, im.first + j - 1)), "period " \o Str(j),
                                              seen("periods")[j], Period(e.m, im.first + j - 1)))
                     \o Each(n - 1, LAMBDA j : Judge(seen("periods")[j] < seen("periods")[j + 1], "increasing periods",
                                                     seen("periods")[j], seen("periods")[j + 1]))
                     \o Each(Len(o.rows), LAMBDA j : LET r == im.first + o.rows[j] - 1 IN
                           ValueIs("median " \o Str(r), seen("spec_accels")[o.rows[j]], LnMed(e.m, q, r))
                           \o NumberIs("sigma " \o Str(r), seen("ln_stds")[o.rows[j]], LnStd(e.m, q, r))))
            \o one("pga", im.pga, 1) \o one("pgv", im.pgv, im.scale) \o one("pgd", im.pgd, im.scale)
            \* every reading gave what the last one gave
            \o Each(Len(o.reads), LAMBDA j : Judge(o.reads[j].digest = o.digests[o.reads[j].what],
                                                   "repeated reading of " \o o.reads[j].what, o.reads[j], o.digests[o.reads[j].what]))

(* ---- interpolation: C06 -------------------------------------------------- *)
\* x, y: logarithms of the periods, what is interpolated; curve: the coefficients of a spline
LOCAL InterpWant(e, x, y, curve, t) ==
    LET n == Len(x) IN
    IF t < x[1] THEN IF e.m = "GA11" THEN y[1] ELSE NaN
    ELSE IF t > x[n] THEN IF e.m = "GA11" THEN y[n] ELSE NaN
    ELSE ValueAt(x, y, e.how, curve, t)
LOCAL Dims(shape, n) == CASE shape = "scalar" -> <<>> [] shape = "matrix" -> <<2, n / 2>> [] shape = "column" -> <<n, 1>> [] OTHER -> <<n>>
Interpolation(e) ==
    LET n == Len(e.T)
        o == e.o
        log(v) == IF e.fn \in {"accels", "ratio"} THEN Ln(v) ELSE v
        out == Outcome(e.m, e.s)
        x == Vec([j \in 1..Len(o.P) |-> Ln(o.P[j])])
        y == IF e.fn \in {"accels", "ln_accels", "ratio"} THEN Vec([j \in 1..Len(o.Y) |-> Ln(o.Y[j])]) ELSE o.S
        curve == Curve(x, y, e.how)
        want == Vec([j \in 1..n |-> InterpWant(e, x, y, curve, Ln(e.T[j]))])
    IN IF o.exc # "None" \/ out # "None" THEN Judge(o.exc = out, "outcome", o.exc, out)
       \* the logarithm cannot be told from a response of zero
       ELSE IF \E j \in 1..Len(y) : ~IsFinite(y[j]) \/ y[j] < -690 THEN Ok
       ELSE IF ~Same(o.dims, Dims(e.shape, n)) THEN Bad("shape", o.dims, Dims(e.shape, n))
       ELSE Each(n, LAMBDA j : Judge(IsNum(o.y[j]) /\ Near(log(o.y[j]), want[j], TOL), e.fn \o " " \o e.how, o.y[j], want[j]))
            \* logarithmic and arithmetic versions
            \o (IF HasKey(o, "other") THEN NearSeqs("logarithms agree", o.other, o.y, "1e-10") ELSE Ok)
            \* element by element, in order
            \o NearSeqs("one by one", o.single, o.y, "1e-10")

(* ---- estimates: C07 ------------------------------------------------------- *)
EstimateOf(f, a) ==
    LET get(k, d) == LET v == Get(a, k, "omit") IN IF Same(v, "omit") THEN d ELSE v IN
  CASE f = "ASK14.calc_depth_1_0" -> ASK_Depth10(a.v_s30, get("region", "california"))
    [] f \in {"CY14.calc_depth_1_0", "AS16.calc_depth_1_0"} -> CY_Depth10(a.v_s30, get("region", "california"))
    [] f = "BA19.calc_depth_1_0" -> BA_Depth10(a.v_s30)
    [] f = "ASK14.calc_width" -> ASK_Width(a.mag, a.dip)
    [] f = "ASK14.calc_depth_tor" -> ASK_DepthTor(a.mag)
    [] f = "CY14.calc_depth_tor" -> CY_DepthTor(a.mag, a.mechanism)
    [] f = "CB14.calc_depth_2_5" -> CB_Depth25(get("v_s30", "None"), get("region", "global"), get("depth_1_0", "None"))
    [] f = "CB14.calc_depth_hyp" -> CB_DepthHyp(a.mag, a.dip, a.depth_tor, a.depth_bor)
    [] f = "CB14.calc_width" -> CB_Width(a.mag, a.dip, a.depth_tor, get("depth_bot", 15))
    [] f = "CB14.calc_depth_bor" -> CB_DepthBor(a.depth_tor, a.dip, a.width)
    [] f = "AB20.ln_period_pgv" -> AB20_LnPeriod(a.mag)
Estimator(e) ==
    LET want == EstimateOf(e.fn, e.args) IN
    IF e.fn = "CB14.calc_depth_2_5" /\ ~HasKey(e.args, "v_s30") THEN Ok    \* v_s30 is positional
    ELSE IF Same(want, "NotImplementedError") THEN Judge(e.o.exc = want, "outcome", e.o.exc, want)
    ELSE IF e.o.exc # "None" THEN Bad("outcome", e.o.exc, "None")
    ELSE Judge(NearVal(e.o.y, want, "1e-10"), e.fn, e.o.y, want)
Filling(e) ==
    LET o == e.o.first
        p == ToRec(Policed(e.m, e.s))
        x == Completed(e.m, e.s)
        ps == Params(e.m)
        out == Outcome(e.m, e.s)
        as(name, g) == Judge(g.exc = "None", "outcome with " \o name, g.exc, "None")
                       \o (IF g.exc = "None" THEN NearSeqs("median with " \o name, g.y, o.y, "1e-9") \o NearSeqs("sigma with " \o name, g.sd, o.sd, "1e-9")
                           ELSE Ok)
    IN IF out # "None" \/ o.exc # "None" THEN Judge(o.exc = out, "outcome", o.exc \o " " \o o.msg, out)
       ELSE Each(Len(ps), LAMBDA i : LET n == ps[i].n IN
               IF ~IsNone(p[n]) THEN Judge(SameVal(Get(o.x, n, "absent"), p[n]), "given " \o n, Get(o.x, n, "absent"), p[n])
               ELSE Judge(NearVal(Get(o.x, n, "absent"), x[n], "1e-10"), "estimated " \o n, Get(o.x, n, "absent"), x[n]))
            \o (IF HasKey(e.o, "all") THEN as("all estimates given", e.o.all) ELSE Ok)
            \o (IF HasKey(e.o, "one") THEN as("one estimate given", e.o.one) ELSE Ok)

(* ---- site terms: C20 -------------------------------------------------------- *)
SiteWant(e, i) ==
    LET ref == IF IsSeq(e.ref) THEN e.ref[i] ELSE e.ref
        region == IF Same(e.region, "omit") THEN "california" ELSE e.region
    IN CASE e.m = "ASK14" -> ASK_Site(T_ASK14[i], ref, e.v, e.z, region)
         [] e.m = "BSSA14" -> BSSA_Site(T_BSSA14[i], ref, e.v, e.z, region)
         [] e.m = "CB14" -> CB_Site(T_CB14[i], ref, e.v, e.z, region)
         [] e.m = "CY14" -> CY_Site(T_CY14[i], ref, e.v, e.z, region)
SiteTerm(e) ==
    LET n == Len(Table(e.m)) IN
    IF e.o.exc # "None" THEN Bad("outcome", e.o.exc, "None")
    ELSE IF LenR(e.o.y) # n THEN Bad("length", LenR(e.o.y), n)
    ELSE Each(n, LAMBDA i : NumberIs("site term " \o Str(i), e.o.y[i], SiteWant(e, i)))
         \o (IF HasKey(e.o, "again") THEN Judge(Same(e.o.again, e.o.y), "same after building a model", e.o.again, e.o.y) ELSE Ok)

(* ---- durations at energies: C16, C17 ---------------------------------------- *)
EnergyAt(e) ==
    LET x == Completed(e.m, e.s)
        o == e.o
        out == Outcome(e.m, e.s)
        triple == IF e.m = "PR23" THEN PR23_Dur(x, e.e) ELSE PR24_Dur(x, e.e)
        scale == PR24_Scale(e.e)
    IN IF out # "None" THEN Judge(o.exc = out, "outcome", o.exc, out)
       ELSE IF o.exc # "None" THEN Bad("outcome", o.exc, "None")
       ELSE IF e.m = "AS96" THEN
            LET want == AS96_At(x, e.e, e.n) IN
            Judge(IsNum(o.y) /\ (IF IsNaN(want) THEN IsNaN(o.y) ELSE Near(Ln(o.y), want, TOL)), "duration", o.y, Exp(want))
            \o Judge(IsNum(o.incr) /\ (IF IsNaN(want) THEN IsNaN(o.incr) ELSE Near(o.incr, AS96_Incr(e.e), TOL)), "increment", o.incr, AS96_Incr(e.e))
       ELSE IF e.tag = "name" THEN
            IF IsNone(scale) THEN Judge(ExcOf(o.y) = "ValueError", "unsupported threshold", o.y, "ValueError")
            ELSE ValueIs("median by name", o.y, Ln(PR24_D575(x) * scale)) \o NumberIs("sigma by name", o.sd, PR24_Sig(x))
       ELSE IF ~PR_EnergyOk(e.e) THEN Judge(ExcOf(o.y) = "ValueError", "threshold outside", o.y, "ValueError")
       ELSE IF LenR(o.y) # 3 THEN Bad("three durations", o.y, 3)
       ELSE Each(3, LAMBDA j : ValueIs("duration " \o Str(j), o.y[j], Ln(triple[j])))
=============================================================================
