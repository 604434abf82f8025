-------------------------------- MODULE ASK14 -------------------------------
(* Abrahamson, Silva and Kamai (2014).  s: completed scenario, c: row.       *)
EXTENDS Basins

LOCAL VREF == 1180
ASK_V1(c) == Exp("-0.35" * Ln(Clip(c.period, "0.5", 3) / "0.5") + Ln(1500))
LOCAL VsRatio(c, v) == MinR(v, ASK_V1(c)) / c.v_lin

\* Magnitude and distance scaling, three magnitude regimes split at m2 and m1
LOCAL F1(c, s) ==
    LET h == c.c4 - (c.c4 - 1) * Clip(5 - s.mag, 0, 1)
        lnR == Ln(Sqrt(Sq(s.dist_rup) + Sq(h)))
        far == c.a17 * s.dist_rup
    IN c.a1 + far +
       (IF s.mag <= c.m2 THEN
            c.a4 * (c.m2 - c.m1) + c.a8 * Sq("8.5" - c.m2) + c.a6 * (s.mag - c.m2)
            + c.a7 * Sq(s.mag - c.m2) + (c.a2 + c.a3 * (c.m2 - c.m1)) * lnR
        ELSE
            (IF s.mag <= c.m1 THEN c.a4 ELSE c.a5) * (s.mag - c.m1)
            + c.a8 * Sq("8.5" - s.mag) + (c.a2 + c.a3 * (s.mag - c.m1)) * lnR)

\* Hanging-wall term
LOCAL F4(c, s) ==
    LET a2hw == "0.2"
        dm == s.mag - "6.5"
        r1 == s.width * Cos(Radians(s.dip))
        r2 == 3 * r1
        x == s.dist_x
        t1 == MinR(90 - s.dip, 60) / 45
        t2 == IF s.mag <= "5.5" THEN 0
              ELSE IF s.mag < "6.5" THEN (1 + a2hw * dm) - (1 - a2hw) * Sq(dm)
              ELSE 1 + a2hw * dm
        t3 == IF x < r1 THEN "0.25" + "1.5" * (x / r1) - "0.75" * Sq(x / r1)
              ELSE IF x < r2 THEN 1 - (x - r1) / (r2 - r1)
              ELSE 0
        t4 == Clip(1 - Sq(s.depth_tor) / 100, 0, 1)
        t5 == IF IsNone(s.dist_y0) THEN Clip(1 - s.dist_jb / 30, 0, 1)
              ELSE Clip(1 - (s.dist_y0 - x * Tan(Radians(20))) / 5, 0, 1)
    IN c.a13 * t1 * t2 * t3 * t4 * t5

\* Linear/nonlinear site and basin terms; ref is the response at 1180 m/s
ASK_Site(c, ref, v, z10, region) ==
    LET q == VsRatio(c, v)
        f5 == IF q < 1 THEN c.a10 * Ln(q) - c.b * Ln(ref + c.c) + c.b * Ln(ref + c.c * q ^ c.n)
                       ELSE (c.a10 + c.b * c.n) * Ln(q)
        f10 == IF Eq(v, VREF) \/ IsNone(z10) THEN 0
               ELSE Interp(v, <<150, 250, 400, 700>>, <<c.a43, c.a44, c.a45, c.a46>>)
                    * Ln((z10 + "0.01") / (ASK_Depth10(v, region) + "0.01"))
    IN f5 + f10

LOCAL LnResp(c, s, v, ref) ==
    LET sof == Clip(s.mag - 4, 0, 1)
        f7 == IF s.mechanism = "RS" THEN c.a11 * sof ELSE 0
        f8 == IF s.mechanism = "NS" THEN c.a12 * sof ELSE 0
        f6 == c.a15 * Clip(s.depth_tor / 20, 0, 1)
        f11 == IF s.is_aftershock THEN c.a14 * Clip(1 - (s.dist_crjb - 5) / 10, 0, 1) ELSE 0
        freg == CASE s.region = "taiwan" -> c.a31 * Ln(VsRatio(c, v)) + c.a25 * s.dist_rup
                  [] s.region = "china" -> c.a28 * s.dist_rup
                  [] s.region = "japan" ->
                       Interp(v, <<150, 250, 350, 450, 600, 850, 1150>>,
                              <<c.a36, c.a37, c.a38, c.a39, c.a40, c.a41, c.a42>>) + c.a29 * s.dist_rup
                  [] OTHER -> 0
    IN F1(c, s) + (IF s.on_hanging_wall THEN F4(c, s) ELSE 0) + f6 + f7 + f8 + f11 + freg
       + ASK_Site(c, ref, v, s.depth_1_0, s.region)

ASK_Ref(c, s) == Exp(LnResp(c, s, VREF, NaN))
ASK_Med(c, s) == LnResp(c, s, s.v_s30, ASK_Ref(c, s))

ASK_Std(c, s) ==
    LET ref == ASK_Ref(c, s)
        mm == Clip((s.mag - 4) / 2, 0, 1)
        phi_al == IF s.region = "japan" THEN c.s5 + (c.s6 - c.s5) * Clip((s.dist_rup - 30) / 50, 0, 1)
                  ELSE IF s.vs_source = "measured" THEN c.s1m + (c.s2m - c.s1m) * mm
                  ELSE c.s1e + (c.s2e - c.s1e) * mm
        tau_al == c.s3 + (c.s4 - c.s3) * Clip((s.mag - 5) / 2, 0, 1)
        amp2 == "0.16"
        phi_b2 == MaxR(Sq(phi_al) - amp2, 0)
        d == IF s.v_s30 >= c.v_lin THEN 0
             ELSE (c.b * ref) / (ref + c.c * (s.v_s30 / c.v_lin) ^ c.n) - (c.b * ref) / (ref + c.c)
    IN Sqrt(phi_b2 * Sq(1 + d) + amp2 + Sq(tau_al * (1 + d)))

ASK_Fill(s) ==
    LET s1 == IF IsNone(s.width) THEN With(s, "width", ASK_Width(s.mag, s.dip)) ELSE s
    IN IF IsNone(s1.depth_tor) THEN With(s1, "depth_tor", ASK_DepthTor(s.mag)) ELSE s1
=============================================================================
