-------------------------------- MODULE CB14 --------------------------------
(* Campbell and Bozorgnia (2014)                                             *)
EXTENDS Basins

LOCAL C == "1.88"
LOCAL N == "1.18"
LOCAL PGA == 22           \* row of the PGA

LOCAL FMag(c, s) ==
    c.c_0 + c.c_1 * s.mag + c.c_2 * MaxR(s.mag - "4.5", 0) + c.c_3 * MaxR(s.mag - "5.5", 0)
    + c.c_4 * MaxR(s.mag - "6.5", 0)
LOCAL FDis(c, s) == (c.c_5 + c.c_6 * s.mag) * Ln(Sqrt(Sq(s.dist_rup) + Sq(c.c_7)))
LOCAL FFlt(c, s) ==
    LET t == Clip(s.mag - "4.5", 0, 1)
    IN IF s.mechanism = "RS" THEN c.c_8 * t ELSE IF s.mechanism = "NS" THEN c.c_9 * t ELSE 0
LOCAL FHng(c, s) ==
    LET r1 == s.width * Cos(Radians(s.dip))
        r2 == 62 * s.mag - 350
        x == s.dist_x
        q1 == x / r1
        q2 == (x - r1) / (r2 - r1)
        fx == IF x < 0 THEN 0
              ELSE IF x <= r1 THEN c.h_1 + c.h_2 * q1 + c.h_3 * Sq(q1)
              ELSE MaxR(0, c.h_4 + c.h_5 * q2 + c.h_6 * Sq(q2))
        fr == IF Eq(s.dist_rup, 0) THEN 1 ELSE (s.dist_rup - s.dist_jb) / s.dist_rup
        fm == IF s.mag <= "5.5" THEN 0 ELSE MinR(s.mag - "5.5", 1) * (1 + c.a_2 * (s.mag - "6.5"))
        fz == IF s.depth_tor > "16.66" THEN 0 ELSE 1 - "0.06" * s.depth_tor
        fd == (90 - s.dip) / 45
    IN c.c_10 * fx * fr * fm * fz * fd
LOCAL FHyp(c, s) ==
    Clip(s.depth_hyp - 7, 0, 13) * (c.c_17 + (c.c_18 - c.c_17) * Clip(s.mag - "5.5", 0, 1))
LOCAL FDip(c, s) == c.c_19 * s.dip * Clip("5.5" - s.mag, 0, 1)
LOCAL FAtn(c, s) ==
    (c.c_20 + (CASE s.region \in {"japan", "italy"} -> c.dc_20jp
                 [] s.region = "china" -> c.dc_20ch
                 [] OTHER -> c.dc_20ca)) * MaxR(s.dist_rup - 80, 0)

\* Shallow site response, Japanese correction, and basin response.  A PGA of
\* NaN asks for the reference condition.
CB_Site(c, pga, v, z25in, region) ==
    LET q == v / c.k_1
        jp == region = "japan"
        fg == IF v <= c.k_1 THEN c.c_11 * Ln(q) + c.k_2 * (Ln(pga + C * q ^ N) - Ln(pga + C))
              ELSE (c.c_11 + c.k_2 * N) * Ln(q)
        fj == IF ~jp THEN 0
              ELSE IF v <= 200 THEN (c.c_12 + c.k_2 * N) * (Ln(q) - Ln(200 / c.k_1))
              ELSE (c.c_13 + c.k_2 * N) * Ln(q)
        z == IF IsNaN(pga) THEN CB_Depth25(v, region, "None") ELSE z25in
        fs == IF z <= 1 THEN (c.c_14 + (IF jp THEN c.c_15 ELSE 0)) * (z - 1)
              ELSE IF z <= 3 THEN 0
              ELSE c.c_16 * c.k_3 * Exp("-0.75") * (1 - Exp("-0.25" * (z - 3)))
    IN fg + fj + fs

LOCAL LnResp(c, s, pga, v) ==
    FMag(c, s) + FDis(c, s) + FFlt(c, s) + FHng(c, s) + CB_Site(c, pga, v, s.depth_2_5, s.region)
    + FHyp(c, s) + FDip(c, s) + FAtn(c, s)
CB_Pga(s) == Exp(LnResp(T_CB14[PGA], s, NaN, 1100))
CB_Med(c, s, pga) == LnResp(c, s, pga, s.v_s30)

LOCAL Taper(s, hi, lo) == hi + (lo - hi) * Clip("5.5" - s.mag, 0, 1)
CB_Std(c, s, pga) ==
    LET p == T_CB14[PGA]
        tauY == Taper(s, c.tau_2, c.tau_1)
        phiY == Taper(s, c.phi_2, c.phi_1)
        tauP == Taper(s, p.tau_2, p.tau_1)
        phiP == Taper(s, p.phi_2, p.phi_1)
        q == s.v_s30 / c.k_1
        alpha == IF s.v_s30 < c.k_1 THEN c.k_2 * pga * (1 / (pga + C * q ^ N) - 1 / (pga + C)) ELSE 0
        tau2 == Sq(tauY) + Sq(alpha) * Sq(tauP) + 2 * alpha * c.rho_lnPGAlnY * tauY * tauP
        phiPB == Sqrt(Sq(phiP) - Sq(p.phi_lnAF))
        phiYB == Sqrt(Sq(phiY) - Sq(c.phi_lnAF))
        phi2 == Sq(phiYB) + Sq(c.phi_lnAF) + Sq(alpha) * Sq(phiPB) + 2 * alpha * c.rho_lnPGAlnY * phiYB * phiPB
    IN Sqrt(tau2 + phi2)

\* Estimates, in their order of dependence
CB_Fill(s) ==
    LET fill(r, k, v) == IF IsNone(r[k]) THEN With(r, k, v) ELSE r
        s1 == fill(s, "depth_2_5", CB_Depth25(s.v_s30, s.region, s.depth_1_0))
        s2 == fill(s1, "depth_tor", CY_DepthTor(s.mag, s.mechanism))
        s3 == fill(s2, "width", CB_Width(s.mag, s.dip, s2.depth_tor, s2.depth_bot))
        s4 == fill(s3, "depth_bor", CB_DepthBor(s3.depth_tor, s.dip, s3.width))
    IN fill(s4, "depth_hyp", CB_DepthHyp(s.mag, s.dip, s4.depth_tor, s4.depth_bor))

CB_Logs(s) == \/ s.mechanism = "SS" /\ s.mag > "8.5"
              \/ s.mechanism = "RS" /\ s.mag > "8.0"
              \/ s.mechanism = "NS" /\ s.mag > "7.5"
=============================================================================
