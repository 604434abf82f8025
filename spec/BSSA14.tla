------------------------------- MODULE BSSA14 -------------------------------
(* Boore, Stewart, Seyhan and Atkinson (2014)                                *)
EXTENDS Basins

LOCAL Event(c, s) ==
    LET d == s.mag - c.M_h
    IN (CASE s.mechanism = "SS" -> c.e_1
          [] s.mechanism = "NS" -> c.e_2
          [] s.mechanism = "RS" -> c.e_3
          [] OTHER -> c.e_0)
       + (IF s.mag <= c.M_h THEN c.e_4 * d + c.e_5 * Sq(d) ELSE c.e_6 * d)

LOCAL Path(c, s) ==
    LET dc3 == IF s.region \in {"china", "turkey"} THEN c.dc_3ct
               ELSE IF s.region \in {"italy", "japan"} THEN c.dc_3ij
               ELSE c.dc_3global
        r == Sqrt(Sq(s.dist_jb) + Sq(c.h))
    IN (c.c_1 + c.c_2 * (s.mag - c.M_ref)) * Ln(r / c.R_ref) + (c.c_3 + dc3) * (r - c.R_ref)

\* Site term: linear, nonlinear (from the PGA on rock) and basin (T >= 0.65 s)
BSSA_Site(c, pga, v, z10, region) ==
    LET flin == c.c * Ln(MinR(v, c.V_c) / c.V_ref)
        f2 == c.f_4 * (Exp(c.f_5 * (MinR(v, 760) - 360)) - Exp(c.f_5 * (760 - 360)))
        fnl == c.f_1 + f2 * Ln((pga + c.f_3) / c.f_3)
        dz == IF IsNone(z10) THEN 0 ELSE z10 - CY_Depth10(v, region)
    IN flin + fnl + (IF c.period >= "0.65" THEN MinR(c.f_6 * dz, c.f_7) ELSE 0)

BSSA_Pga(s) == LET c == T_BSSA14[2] IN Exp(Event(c, s) + Path(c, s))
BSSA_Med(c, s, pga) == Event(c, s) + Path(c, s) + BSSA_Site(c, pga, s.v_s30, s.depth_1_0, s.region)

BSSA_Std(c, s) ==
    LET m == Clip(s.mag, "4.5", "5.5") - "4.5"
        tau == c.tau_1 + (c.tau_2 - c.tau_1) * m
        phi == (c.phi_1 + (c.phi_2 - c.phi_1) * m)
               - c.dphi_V * Clip(Ln(c.V_2 / s.v_s30) / Ln(c.V_2 / c.V_1), 0, 1)
        phiR == phi + c.dphi_R * Clip(Ln(MaxR(s.dist_jb, "0.1") / c.R_1) / Ln(c.R_2 / c.R_1), 0, 1)
    IN Sqrt(Sq(phiR) + Sq(tau))

\* magnitude bounds by mechanism, reported through logging
BSSA_Logs(s) == (s.mechanism = "SS" /\ (s.mag < 3 \/ s.mag > "8.5"))
             \/ (s.mechanism = "NS" /\ (s.mag < 3 \/ s.mag > 7))
=============================================================================
