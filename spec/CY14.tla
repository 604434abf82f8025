-------------------------------- MODULE CY14 --------------------------------
(* Chiou and Youngs (2014)                                                   *)
EXTENDS Basins

CY_Ref(c, s) ==
    LET ch == Cosh(2 * MaxR(s.mag - "4.5", 0))
        src == c.c_1
               + (IF s.mechanism = "RS" THEN c.c_1a + c.c_1c / ch
                  ELSE IF s.mechanism = "NS" THEN c.c_1b + c.c_1d / ch ELSE 0)
               + c.c_2 * (s.mag - 6)
               + ((c.c_2 - c.c_3) / c.c_n) * Ln(1 + Exp(c.c_n * (c.c_m - s.mag)))
               + (c.c_7 + c.c_7b / ch) * (s.depth_tor - CY_DepthTor(s.mag, s.mechanism))
               + (c.c_11 + c.c_11b / ch) * Sq(Cos(Radians(s.dip)))
        geo == c.c_4 * Ln(s.dist_rup + c.c_5 * Cosh(c.c_6 * MaxR(s.mag - c.c_hm, 0)))
               + (c.c_4a - c.c_4) * Ln(Sqrt(Sq(s.dist_rup) + Sq(c.c_rb)))
        reg == IF s.region \in {"japan", "italy"} /\ s.mag > 6 /\ s.mag < "6.9" THEN c.gamma_ji
               ELSE IF s.region = "china" THEN c.gamma_c ELSE 1
        atn == reg * (c.c_gamma1 + c.c_gamma2 / Cosh(MaxR(s.mag - c.c_gamma3, 0))) * s.dist_rup
        dir == c.c_8 * MaxR(1 - MaxR(s.dist_rup - 40, 0) / 30, 0)
               * MinR(MaxR(s.mag - "5.5", 0) / "0.8", 1)
               * Exp(-(c.c_8a * Sq(s.mag - c.c_8b))) * s.dpp_centered
        hng == IF s.on_hanging_wall
               THEN c.c_9 * Cos(Radians(s.dip))
                    * (c.c_9a + (1 - c.c_9a) * Tanh(s.dist_x / c.c_9b))
                    * (1 - Sqrt(Sq(s.dist_jb) + Sq(s.depth_tor)) / (s.dist_rup + 1))
               ELSE 0
    IN src + geo + atn + dir + hng

LOCAL Nonlin(c, v) == c.phi_2 * (Exp(c.phi_3 * (MinR(v, 1130) - 360)) - Exp(c.phi_3 * (1130 - 360)))

CY_Site(c, ref, v, z10, region) ==
    LET jp == region = "japan"
        p1 == IF jp THEN c.phi_1jp ELSE c.phi_1
        p5 == IF jp THEN c.phi_5jp ELSE c.phi_5
        p6 == IF jp THEN c.phi_6jp ELSE c.phi_6
        dz == 1000 * (z10 - CY_Depth10(v, region))
    IN p1 * MinR(Ln(v / 1130), 0) + Nonlin(c, v) * Ln((ref + c.phi_4) / c.phi_4)
       + p5 * (1 - Exp(-(dz / p6)))

CY_Med(c, s) == LET r == CY_Ref(c, s) IN r + CY_Site(c, Exp(r), s.v_s30, s.depth_1_0, s.region)

CY_Std(c, s) ==
    LET ref == Exp(CY_Ref(c, s))
        s2 == IF s.region = "japan" THEN c.sigma_2jp ELSE c.sigma_2
        m == (Clip(s.mag, 5, "6.5") - 5) / "1.5"
        tau == c.tau_1 + (c.tau_2 - c.tau_1) * m
        nl1 == 1 + Nonlin(c, s.v_s30) * (ref / (ref + c.phi_4))
        sig == (c.sigma_1 + (s2 - c.sigma_1) * m)
               * Sqrt((IF s.vs_source = "measured" THEN "0.7" ELSE c.sigma_3) + Sq(nl1))
    IN Sqrt(Sq(nl1) * Sq(tau) + Sq(sig))

CY_Fill(s) ==
    LET s1 == IF IsNone(s.depth_tor) THEN With(s, "depth_tor", CY_DepthTor(s.mag, s.mechanism)) ELSE s
    IN IF IsNone(s1.depth_1_0) THEN With(s1, "depth_1_0", CY_Depth10(s.v_s30, s.region)) ELSE s1

CY_Logs(s) == s.mag < "3.5" \/ s.mag > (IF s.mechanism \in {"RS", "NS"} THEN "8.0" ELSE "8.5")
=============================================================================
