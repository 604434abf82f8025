--------------------------- MODULE JudgeRelations ---------------------------
(* What relates several runs: attenuation, continuity, disguised inputs,     *)
(* arrays, correlations, conditional spectra, the catalogue.                 *)
EXTENDS JudgeModels

(* ---- attenuation and scaling: C22 ---------------------------------------- *)
LOCAL Monotone2(e, a, b) ==
    LET out == Outcome(e.m, e.s)
        up == e.tag # "distance"
        ordered(x, y) == IF up THEN y >= x * (1 - "1e-9") ELSE y <= x * (1 + "1e-9")
        want == IF up THEN "not less than " ELSE "not more than "
    IN IF out # "None" THEN Judge(a.exc = out, "outcome", a.exc, out)
       ELSE IF a.exc # "None" \/ b.exc # "None" THEN Bad("outcome", <<a.exc, b.exc>>, "None")
       ELSE IF Len(a.y) # Len(b.y) THEN Bad("length", Len(b.y), Len(a.y))
       ELSE Each(Len(a.y), LAMBDA j :
               IF e.m = "KS06" /\ (IsNaN(a.y[j]) \/ IsNaN(b.y[j])) THEN Ok
               ELSE Judge(ordered(a.y[j], b.y[j]), e.tag \o " " \o Str(j), b.y[j], want \o Str(a.y[j])))

Monotone(e) == Monotone2(e, e.o.a, e.o.b)
\* consecutive rungs of a ladder
MonotoneLadder(e) == Each(Len(e.o) - 1, LAMBDA j : Monotone2(With(e, "s", e.rungs[j]), e.o[j], e.o[j + 1]))

(* ---- continuity: C23 ------------------------------------------------------ *)
\* the discontinuities of the published models
LOCAL Jumps(m, p, s) ==
    CASE m = "CY14" /\ p = "mag" /\ Get(s, "region", "None") \in {"japan", "italy"} -> <<"6", "6.9">>
      [] m = "CB14" /\ p = "v_s30" /\ Get(s, "region", "None") = "japan" -> <<"200">>
      [] m = "CB14" /\ p = "dist_x" -> <<"0">>
      [] m = "I14" /\ p = "mag" -> <<"6.75">>
      [] m = "AS16" /\ p = "mag" -> <<"5.2", "5.35">>
      [] m = "C03" /\ p = "mag" -> <<"7.16">>
      [] m = "TP05" /\ p = "mag" -> <<"7.2">>
      [] m = "ASK14" /\ p = "v_s30" -> <<"1180">>
      \* the basin term has one slope per class of velocities
      [] m = "BA19" /\ p = "v_s30" -> <<"200", "300", "500">>
      \* the velocities of linear response above the greatest velocity, 1000 m/s
      [] m \in {"AGA16", "CH14"} /\ p = "v_s30" -> <<"1032.5", "1053.5", "1085.7">>
      [] OTHER -> <<>>
LOCAL Excused(e, lo, hi) == LET q == Jumps(e.m, e.p, e.s) IN
    \E i \in 1..Len(q) : lo <= q[i] + "1e-6" /\ hi >= q[i] - "1e-6"
\* constants of the CB14 hanging-wall term are given to three figures; the
\* nonlinear term of BA19 is held from its least tabulated value on, a step of
\* one tabulated frequency at a time
LOCAL Tiny(m) == CASE m = "CB14" -> "2e-3" [] m = "BA19" -> "2e-3" [] OTHER -> "5e-4"
LOCAL Small(e, what, g, tol) == Judge(g[1] <= tol /\ g[2] <= tol, what, g, "no jump")
Boundary(e) ==
    IF e.o.exc # "None" THEN Judge(e.o.exc = Outcome(e.m, e.s), "outcome", e.o.exc, Outcome(e.m, e.s))
    ELSE IF Excused(e, e.at[1], e.at[3]) THEN Ok
    ELSE Small(e, e.p \o " below " \o e.at[2], e.o.below, Tiny(e.m)) \o Small(e, e.p \o " above " \o e.at[2], e.o.above, Tiny(e.m))
Sweep(e) ==
    IF e.o.exc # "None" THEN Judge(e.o.exc = Outcome(e.m, e.s), "outcome", e.o.exc, Outcome(e.m, e.s))
    ELSE Each(Len(e.o.found), LAMBDA j : LET f == e.o.found[j] IN
            IF Excused(e, f.at, f.to) THEN Ok
            ELSE Judge(f.y <= Tiny(e.m) /\ f.sd <= Tiny(e.m), e.p \o " at " \o Str(f.at), <<f.y, f.sd>>, "no jump"))

(* ---- disguised inputs: C24 ------------------------------------------------ *)
Disguised(e) ==
    LET a == e.o.base
        b == e.o.other
        ps == Params(e.m)
    IN Judge(a.exc = b.exc, "outcome", b.exc, a.exc)
       \o (IF a.exc # "None" \/ b.exc # "None" THEN Ok
           ELSE NearSeqs("value", b.y, a.y, "1e-11") \o NearSeqs("deviation", b.sd, a.sd, "1e-11")
                \o NearSeqs("ordinate", b.per, a.per, "1e-11")
                \o Judge(\A i \in 1..Len(ps) : HasKey(b.x, ps[i].n), "every declared parameter", b.x, "all declared")
                \o Judge(\A k \in DOMAIN b.x : \E i \in 1..Len(ps) : ps[i].n = k, "only declared parameters", b.x, "those declared")
                \o Each(Len(ps), LAMBDA i : LET n == ps[i].n IN
                      Judge(NearVal(Get(b.x, n, "absent"), Get(a.x, n, "absent"), "1e-11"), "completed " \o n,
                            Get(b.x, n, "absent"), Get(a.x, n, "absent"))))

(* ---- arrays: C25 ------------------------------------------------------------ *)
LOCAL ArrayDims(e) ==
    CASE e.fn = "PR24.duration_model" ->
            LET n == MaxR(MaxR(Len(e.mag), Len(e.dist_rup)), Len(e.v_s30)) IN <<3, IntOf(n)>>
      [] e.fn = "AS96.interp stds" -> <<Len(e.stds), Len(e.T)>>
      [] e.fn = "site" -> <<Len(Table(e.m))>>
      [] e.shape = "scalar" -> <<>>
      [] e.shape = "matrix" -> <<2, 3>>
      [] OTHER -> <<Len(e.T)>>
LOCAL ArrayWant(e, j) ==
    CASE e.fn = "BJ.calc_correls" -> BJ_Cor(e.T[j], e.cond)
      [] e.fn = "AS96.interp" -> Exp(AS96_At(Completed("AS96", e.s), e.T[j], "None"))
      [] e.fn = "AS96.calc_ln_dur_incr" -> AS96_Incr(e.T[j])
      [] e.fn = "AS96.interp stds" ->
            LET n == Len(e.T)
                i == 1 + ((j - 1) % n)
                k == 1 + FloorI((j - 1) / n)
            IN Exp(AS96_At(Completed("AS96", e.s), e.T[i], e.stds[k]))
      [] e.fn = "PR24.duration_model" ->
            LET n == ArrayDims(e)[2]
                i == 1 + ((j - 1) % n)
                col(q) == IF Len(q) = 1 THEN q[1] ELSE q[i]
                x == [mag |-> col(e.mag), dist_rup |-> col(e.dist_rup), v_s30 |-> col(e.v_s30),
                      region |-> e.s.region, event_type |-> e.s.event_type]
            IN PR24_Dur(x, e.e)[1 + FloorI((j - 1) / n)]
      [] e.fn = "site" -> IF e.m = "ASK14" THEN ASK_Site(T_ASK14[j], e.ref[j], e.v, "0.3", "california")
                          ELSE CY_Site(T_CY14[j], e.ref[j], e.v, "0.3", "california")
LOCAL ArrayOutcome(e) ==
    IF e.fn # "PR24.duration_model" THEN "None"
    ELSE IF ~PR24_Supported(e.s) \/ ~PR_EnergyOk(e.e) THEN "ValueError" ELSE "None"
Elementwise(e) ==
    LET o == e.o
        out == ArrayOutcome(e)
        d == ArrayDims(e)
        n == IF Len(d) = 0 THEN 1 ELSE IF Len(d) = 1 THEN d[1] ELSE d[1] * d[2]
    IN IF out # "None" THEN Judge(o.exc = out, "outcome", o.exc, out)
       ELSE IF o.exc # "None" THEN Bad("outcome", o.exc \o " " \o Get(o, "msg", ""), "None")
       ELSE IF ~Same(o.dims, d) THEN Bad("shape", o.dims, d)
       ELSE NearSeqs("one by one", o.y, o.one, "1e-10")
            \o Each(n, LAMBDA j : LET w == ArrayWant(e, j) IN
                  Judge(IsNum(o.y[j]) /\ Near(o.y[j], w, TOL), "element " \o Str(j), o.y[j], w))

(* ---- correlations: C18 -------------------------------------------------------- *)
CorWant(e) ==
    LET n == Len(e.F)
        F == e.F
        grid(f(_, _)) == Vec([i \in 1..n |-> Vec([j \in 1..n |-> f(i, j)])])
        ba(i, j) == BA18_Cor(F[i], F[j])
    IN CASE e.fn = "BJ" -> grid(LAMBDA i, j : BJ_Cor(F[i], F[j]))
         [] e.fn = "BA18.corr" -> grid(ba)
         [] e.fn \in {"BA18.cov std", "BA18.cov both"} -> grid(LAMBDA i, j : ba(i, j) * e.std[i] * e.std[j])
         [] e.fn = "BA18.cov scalar" -> grid(LAMBDA i, j : ba(i, j) * e.std[1] * e.std[1])
         [] e.fn = "BA18.cov component" ->
               LET sg == Vec([i \in 1..n |-> BA18_At(F[i], e.component)]) IN grid(LAMBDA i, j : ba(i, j) * sg[i] * sg[j])
         [] e.fn = "PJ17.cov" -> PJ_Cov(F, e.sE, e.sS, e.sA, e.mag)
         [] e.fn = "PJ17.cor" -> PJ_Cor(F, e.sE, e.sS, e.sA, e.mag)
         [] e.fn = "PJ17.E" -> grid(LAMBDA i, j : PJ_CorE(F[i], F[j], e.mag))
         [] e.fn = "PJ17.S" -> grid(LAMBDA i, j : PJ_CorS(F[i], F[j]))
         [] e.fn = "PJ17.A" -> grid(LAMBDA i, j : PJ_CorA(F[i], F[j]))
         [] e.fn = "PJ17.variances" -> <<Vec([i \in 1..n |-> PJ_SigE(F[i])]), Vec([i \in 1..n |-> PJ_SigS(F[i])]),
                                         Vec([i \in 1..n |-> PJ_SigA(F[i])])>>
LOCAL IsMatrix(y, r, c) == IsSeq(y) /\ LenR(y) = r /\ \A i \in 1..r : LenR(y[i]) = c
Correlations(e) ==
    LET o == e.o
        n == Len(e.F)
        vars == e.fn = "PJ17.variances"
        rows == IF vars THEN 3 ELSE n
        k == Len(e.sub)
        cor == e.fn \in {"BJ", "BA18.corr", "PJ17.cor", "PJ17.E", "PJ17.S", "PJ17.A"}
        w == CorWant(e)
    IN IF e.fn = "BA18.cov none" THEN Judge(o.exc = "NotImplementedError", "outcome", o.exc, "NotImplementedError")
       ELSE IF o.exc # "None" THEN Bad("outcome", o.exc \o " " \o Get(o, "msg", ""), "None")
       ELSE IF ~IsMatrix(o.y, rows, n) THEN Bad("shape", o.dims, <<rows, n>>)
       ELSE IF ~IsMatrix(o.part, IF vars THEN 3 ELSE k, k) THEN Bad("shape of a part", o.part, k)
       ELSE Each(rows, LAMBDA i : Each(n, LAMBDA j :
                Judge(IsNum(o.y[i][j]) /\ Near(o.y[i][j], w[i][j], TOL), e.fn \o " " \o Str(i) \o " " \o Str(j), o.y[i][j], w[i][j])
                \o (IF vars THEN Ok ELSE Judge(Near(o.y[i][j], o.y[j][i], "1e-10"), "symmetry", o.y[i][j], o.y[j][i]))
                \o (IF cor /\ i = j THEN Judge(Near(o.y[i][i], 1, "1e-9"), "diagonal", o.y[i][i], 1) ELSE Ok)
                \o (IF cor THEN Judge(o.y[i][j] <= 1 + "1e-9" /\ o.y[i][j] >= -1 - "1e-9", "range", o.y[i][j], "[-1, 1]") ELSE Ok)))
            \o Each(IF vars THEN 3 ELSE k, LAMBDA i : Each(k, LAMBDA j :
                LET whole == o.y[IF vars THEN i ELSE e.sub[i]][e.sub[j]] IN
                Judge(Near(o.part[i][j], whole, "1e-10"), "reordered or thinned", o.part[i][j], whole)))

(* ---- conditional spectra: C19 -------------------------------------------------- *)
CmsWant(e) == IF e.fn = "BJ" THEN BJ_Cms(e.T, e.mu, e.sd, e.tc, e.target) ELSE KI_Cms(e.T, e.mu, e.sd, e.cond)
Conditional(e) ==
    LET o == e.o
        n == Len(e.T)
        w == CmsWant(e)
        met(i) == IF e.fn = "BJ" THEN (IF Eq(e.T[i], e.tc) THEN e.target ELSE "None") ELSE e.cond[i]
    IN IF e.fn = "KI unordered" THEN Judge(o.exc = "ValueError", "outcome", o.exc, "ValueError")
       ELSE IF o.exc # "None" THEN Bad("outcome", o.exc \o " " \o Get(o, "msg", ""), "None")
       ELSE IF LenR(o.mean) # n \/ LenR(o.std) # n THEN Bad("length", <<LenR(o.mean), LenR(o.std)>>, n)
       ELSE Each(n, LAMBDA i :
               Judge(IsNum(o.mean[i]) /\ Near(o.mean[i], w.mean[i], "1e-6"), "mean " \o Str(i), o.mean[i], w.mean[i])
               \* near zero a deviation is the root of a difference: compare variances
               \o Judge(IsNum(o.std[i]) /\ o.std[i] >= 0 /\ Near(Sq(o.std[i]), Sq(w.std[i]), "1e-9"), "deviation " \o Str(i), o.std[i], w.std[i])
               \o Judge(o.std[i] <= e.sd[i] * (1 + "1e-9"), "deviation not above the unconditional", o.std[i], e.sd[i])
               \o (IF IsNone(met(i)) THEN Ok
                   ELSE Judge(Near(o.mean[i], met(i), "1e-9"), "target met", o.mean[i], met(i))
                        \o Judge(AbsR(o.std[i]) <= "1e-6", "no deviation where met", o.std[i], 0))
               \o (IF e.fn = "KI one"
                   THEN Judge(Near(o.mean[i], o.bj_mean[i], "1e-6"), "both methods: mean", o.mean[i], o.bj_mean[i])
                        \o Judge(Near(Sq(o.std[i]), Sq(o.bj_std[i]), "1e-9"), "both methods: deviation", o.std[i], o.bj_std[i])
                   ELSE Ok))

(* ---- the catalogue: C26 ---------------------------------------------------------- *)
Required(e) ==
    LET o == e.o IN
    IF o.exc # Outcome(e.m, e.s) THEN Bad("outcome from the required parameters alone", o.exc \o " " \o o.msg, Outcome(e.m, e.s))
    ELSE IF o.exc # "None" THEN Ok
    ELSE LET n == Reported(e.m)[2] - Reported(e.m)[1] + 1 IN
         Judge(Same(o.n, <<n, n, n>>), "shape", o.n, n)
         \o Judge(\A i \in 1..Len(Params(e.m)) : HasKey(o.x, Params(e.m)[i].n), "declared parameters", o.x, "all declared")

LOCAL SameParam(a, r) ==
    LET q(b, c, x, y) == Judge(b, c \o " of " \o r.n, x, y) IN
    q(a.k = r.k, "kind", a.k, r.k) \o q(Same(a.req, r.req), "requiredness", a.req, r.req)
    \o q(SameVal(a.d, r.d) \/ (IsNone(a.d) /\ IsNone(r.d)), "default", a.d, r.d)
    \o q(IF IsNone(r.lo) THEN IsNone(a.lo) ELSE SameVal(a.lo, r.lo), "lower limit", a.lo, r.lo)
    \o q(IF IsNone(r.hi) THEN IsNone(a.hi) ELSE SameVal(a.hi, r.hi), "upper limit", a.hi, r.hi)
    \o (IF r.k = "N" THEN Ok
        ELSE q(LenR(a.opts) = Len(r.opts) /\ \A i \in 1..Len(r.opts) : \E j \in 1..Len(a.opts) : Same(a.opts[j], r.opts[i]),
               "options", a.opts, r.opts))
LOCAL TableOf(m) == IF m = "BA19" THEN Col(T_BA19, "freq_hz")
                    ELSE IF m = "DBC14" THEN T_DBC14.period ELSE Vec([i \in 1..Len(Table(m)) |-> Table(m)[i].period])
Entry(e) ==
    LET o == e.o
        d == Doc(e.m)
        ps == Params(e.m)
        n == LenR(o.params)
        im == Ims(e.m)
        gmm == d.kind = "gmm"
        table == TableOf(e.m)
        \* the table in front of the published rows
        off == im.first - 1
    IN Judge(o.cls = d.cls, "class", o.cls, d.cls) \o Judge(o.name = d.name, "name", o.name, d.name)
       \o Judge(o.abbrev = d.abbrev, "abbreviation", o.abbrev, d.abbrev)
       \o (IF IsNone(d.vref) THEN Ok ELSE Judge(SameVal(o.vref, d.vref), "reference velocity", o.vref, d.vref))
       \o Judge(n = Len(ps), "number of parameters", n, Len(ps))
       \o Each(Len(ps), LAMBDA i :
             LET at == SelectIdx([j \in 1..n |-> o.params[j].n = ps[i].n]) IN
             IF Len(at) # 1 THEN Bad("declared once: " \o ps[i].n, Len(at), 1) ELSE SameParam(o.params[at[1]], ps[i]))
       \o (IF ~HasKey(o, "table") THEN Ok ELSE NearSeqs("table", o.table, table, "1e-10"))
       \o (IF ~gmm \/ ~HasKey(o, "table") \/ ~HasKey(o, "psa") \/ LenR(o.table) # Len(table) THEN Ok
           ELSE LET rows == im.last - off IN
                Judge(LenR(o.psa) = rows, "spectral rows", o.psa, rows)
                \o (IF LenR(o.psa) # rows THEN Ok
                    ELSE Each(rows, LAMBDA j :
                            Judge(Eq(o.table[o.psa[j]], Period(e.m, off + j)), "spectral period " \o Str(j), o.table[o.psa[j]], Period(e.m, off + j))
                            \o Judge(o.table[o.psa[j]] > 0, "positive period", o.table[o.psa[j]], "positive")
                            \o Judge(o.psa[j] # o.pgv /\ o.psa[j] # o.pgd, "apart from velocity and displacement", o.psa[j], <<o.pgv, o.pgd>>)
                            \o (IF j = 1 THEN Ok
                                ELSE Judge(o.table[o.psa[j - 1]] < o.table[o.psa[j]], "increasing periods", o.table[o.psa[j]], o.table[o.psa[j - 1]])
                                     \o Judge(\A i \in 1..(j - 1) : o.psa[i] # o.psa[j], "distinct rows", o.psa, "distinct"))))
                \o Judge(o.pga = im.pga, "PGA row", o.pga, im.pga) \o Judge(o.pgv = im.pgv, "PGV row", o.pgv, im.pgv)
                \o Judge(o.pgd = im.pgd, "PGD row", o.pgd, im.pgd))
Package(e) ==
    LET o == e.o
        count(x) == Len(SelectIdx([j \in 1..LenR(o.models) |-> o.models[j] = x]))
    IN Each(LenR(o.models), LAMBDA j :
            Judge(Same(o.models_are[j], TRUE), "entry is the package attribute", o.models[j], "pygmm." \o o.models[j])
            \o Judge(count(o.models[j]) = 1, "entry held once", o.models[j], 1))
       \o Judge(\A x \in ListedModels : count(x) = 1, "models held", o.models, "all documented")
       \o Each(LenR(o.exported), LAMBDA j :
            Judge(o.exported_are[j] = o.exported[j], "exported name", o.exported_are[j], o.exported[j]))
       \o Judge(Same(o.named, <<<<"Bayless and Abrahamson (2018)", "BA18">>, <<"Stafford (2017)", "PJS17">>>>), "names", o.named, "documented")
       \o Judge(\A x \in ListedModels : \E j \in 1..LenR(o.exported) : o.exported[j] = x \/ x = "AbrahamsonSilva1996",
                "exported models", o.exported, "all documented")
Catalogued(e) == IF e.m = "package" THEN Package(e) ELSE Entry(e)
=============================================================================
