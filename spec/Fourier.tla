------------------------------ MODULE Fourier -------------------------------
(* BA19 Fourier amplitudes, GA11 V/H ratio, AB20 conditional PGV             *)
EXTENDS Basins

(* ---- Bayless and Abrahamson (2019) ------------------------------------- *)
LOCAL R5HZ == 171
BA_NMAX == 239            \* rows of the usable frequency range

LOCAL BA_Flat(c, s, v, z10) ==
    LET fM == c.c1 + c.c2 * (s.mag - 6) + ((c.c2 - c.c3) / c.cn) * Ln(1 + Exp(c.cn * (c.cM - s.mag)))
        fP == c.c4 * Ln(s.dist_rup + c.c5 * Cosh(c.c6 * MaxR(s.mag - c.chm, 0)))
              + ("-0.5" - c.c4) * Ln(Sqrt(Sq(s.dist_rup) + 2500)) + c.c7 * s.dist_rup
        c11 == IF v <= 200 THEN c.c11a ELSE IF v <= 300 THEN c.c11b ELSE IF v <= 500 THEN c.c11c ELSE c.c11d
    IN fM + fP + c.c9 * MinR(s.depth_tor, 20) + (IF s.mechanism = "NS" THEN c.c10 ELSE 0)
       + c11 * Ln((MinR(z10, 2) + "0.01") / (BA_Depth10(v) + "0.01"))

\* nonlinear site term: held from its minimum on, then smoothed over seven rows
LOCAL BA_Nonlin(s) ==
    LET ref == BA_Flat(T_BA19[R5HZ], s, 760, BA_Depth10(760))
        ir == Exp("1.238" + "0.846" * ref)
        raw == Vec([i \in 1..BA_NMAX |->
                 LET c == T_BA19[i]
                 IN c.f4 * (Exp(c.f5 * (MinR(s.v_s30, 760) - 360)) - Exp(c.f5 * (760 - 360))) * Ln((ir + c.f3) / c.f3)])
        im == ArgMin(raw)
        held == Vec([i \in 1..BA_NMAX |-> IF i > im THEN raw[im] ELSE raw[i]])
        Smooth(i) == SumR([j \in 1..7 |-> LET k == i + j - 4 IN IF k >= 1 /\ k <= BA_NMAX THEN held[k] ELSE 0]) / 7
        low == Smooth(im)
    IN Vec([i \in 1..BA_NMAX |-> IF i > BA_NMAX - 7 THEN low ELSE Smooth(i)])
BA_Ctx(s) == [nl |-> BA_Nonlin(s)]
LOCAL BA_Usable(i, s, x) ==
    LET c == T_BA19[i]
    IN BA_Flat(c, s, s.v_s30, s.depth_1_0) + c.c8 * Ln(MinR(s.v_s30, 1000) / 1000) + x.nl[i]
BA_Med(i, s, x) ==
    IF i <= BA_NMAX THEN BA_Usable(i, s, x)
    ELSE BA_Usable(BA_NMAX, s, x)
         - PiR * Exp("-0.4" * Ln(s.v_s30 / 760) - "3.5") * (T_BA19[i].freq_hz - T_BA19[BA_NMAX].freq_hz)
BA_Std(i, s) ==
    LET c == T_BA19[i]
        m == Clip((s.mag - 4) / 2, 0, 1)
        at(a, b) == a + (b - a) * m
    IN Sqrt(Sq(at(c.s1, c.s2)) + Sq(at(c.s3, c.s4)) + Sq(at(c.s5, c.s6)) + (IF IsNone(c.c1a) THEN 0 ELSE Sq(c.c1a)))
BA_Fill(s) == IF IsNone(s.depth_1_0) THEN With(s, "depth_1_0", BA_Depth10(s.v_s30)) ELSE s

(* ---- Gulerce and Abrahamson (2011) ------------------------------------- *)
LOCAL GA_V1(t) ==
    IF t < 0 THEN 862
    ELSE IF t <= "0.5" THEN 1500
    ELSE IF t <= 1 THEN Exp(8 - "0.795" * Ln(t / "0.21"))
    ELSE IF t <= 2 THEN Exp("6.76" - "0.297" * Ln(t))
    ELSE 700
GA_Med(c, s) ==
    LET v == MinR(s.v_s30, GA_V1(c.period))
        q == v / c.v_lin
        d == s.mag - c.c1
    IN c.a1 + c.a8 * Sq("8.5" - s.mag) + (c.a2 + c.a3 * d) * Ln(Sqrt(Sq(s.dist_rup) + Sq(c.c4)))
       + (IF s.mag < c.c1 THEN c.a4 ELSE c.a5) * d
       + c.a10 * Ln(q)
       - (IF v < c.v_lin THEN c.b * (Ln(s.pga_ref + c.c * q ^ c.n) - Ln(s.pga_ref + c.c))
          ELSE c.b * c.n * Ln(q))
       + (IF s.mechanism = "RS" THEN c.a6 ELSE IF s.mechanism = "NS" THEN c.a7 ELSE 0)
GA_Std(c, s) ==
    LET m == Clip((s.mag - 5) / 2, 0, 1)
    IN Sqrt(Sq(c.s1 + (c.s2 - c.s1) * m) + Sq(c.s3 + (c.s4 - c.s3) * m))

(* ---- Abrahamson and Bhasin (2020) --------------------------------------- *)
\* kind: "pga" or "psa1"; gm: the conditioning motion (g)
LOCAL AB20_C(kind) ==
    IF kind = "pga"
    THEN [a1 |-> "4.77", a2 |-> "0.738", a3 |-> "0.484", a4 |-> "0.275", a5 |-> "-0.036", a6 |-> "-0.332",
          a7 |-> "-0.44", a8 |-> "0", p1 |-> "0.32", p2 |-> "0.42", t1 |-> "0.12", t2 |-> "0.26"]
    ELSE [a1 |-> "4.80", a2 |-> "0.82", a3 |-> "0.55", a4 |-> "0.27", a5 |-> "0.054", a6 |-> "-0.382",
          a7 |-> "-0.21", a8 |-> "0", p1 |-> "0.28", p2 |-> "0.38", t1 |-> "0.12", t2 |-> "0.17"]
AB20_Med(s, kind, gm) ==
    LET c == AB20_C(kind)
    IN c.a1 + (c.a2 + (c.a3 - c.a2) * Clip((s.mag - 5) / "2.5", 0, 1)) * Ln(gm)
       + c.a4 * (s.mag - 6) + c.a5 * Sq("8.5" - s.mag)
       + c.a6 * Ln(s.dist_rup + 5 * Exp("0.4" * (s.mag - 6)))
       + (c.a7 + c.a8 * (s.mag - 5)) * Ln(s.v_s30 / 425)
AB20_Std(s, kind) ==
    LET c == AB20_C(kind)
        m == Clip((s.mag - 5) / 2, 0, 1)
    IN Sqrt(Sq(c.p1 + (c.p2 - c.p1) * m) + Sq(c.t1 + (c.t2 - c.t1) * m))
=============================================================================
