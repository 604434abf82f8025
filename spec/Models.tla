------------------------------- MODULE Models -------------------------------
(* The response of model m to a completed scenario x, row by row.            *)
(*   Ctx: what the rows share;  LnMed/LnStd: ln median and ln standard       *)
(* deviation of table row i (durations: measure i).                          *)
(* opt: extra constructor arguments (record).                                *)
EXTENDS Policy

\* the model of a user
LOCAL USER_Med(t, x) ==
    t.c_0 + t.c_1 * (x.mag - 6) - (Ln(x.dist_rup + 8) * "1.2") + (x.depth_tor * "0.02") + (x.dip * "0.003") + (x.dist_x * "0.01")
    + ((IF IsNone(x.depth_1_0) THEN -1 ELSE x.depth_1_0) * "0.3")
    + (CASE x.region = "japan" -> "0.1" [] x.region = "italy" -> "0.2" [] OTHER -> "0.4")
    + (IF Same(x.is_aftershock, TRUE) THEN "0.15" ELSE 0) + (IF x.mechanism = "NS" THEN "-0.25" ELSE 0)

Ctx(m, x, opt) ==
  CASE m = "BSSA14" -> [x |-> x, pga |-> BSSA_Pga(x)]
    [] m = "CB14" -> [x |-> x, pga |-> CB_Pga(x)]
    [] m = "AB06" -> [x |-> x, ab |-> AB06_Ctx(x)]
    [] m = "BA19" -> [x |-> x, ba |-> BA_Ctx(x)]
    [] m = "ASB14" -> [x |-> x, pga |-> ASB_Pga(x)]
    [] m = "DBC14" -> [x |-> x, h |-> DBC_Hidden(x)]
    [] m = "AGA16" -> LET a == Get(opt, "adjust_c1", "None")
                          f == Get(opt, "scale_atten", 1)
                      IN [x |-> x, a |-> a, f |-> f, pga |-> AGA_Pga(x, a, f)]
    [] m = "CH14" -> LET f == Get(opt, "scale_atten", 1) IN [x |-> x, f |-> f, pga |-> CH_Pga(x, f)]
    [] m = "AB20" -> [x |-> x, kind |-> IF Given(opt, "pga") THEN "pga" ELSE "psa1",
                      gm |-> IF Given(opt, "pga") THEN opt.pga ELSE Get(opt, "psa_1s", "None")]
    [] OTHER -> [x |-> x]

LnMed(m, q, i) ==
  CASE m = "ASK14" -> ASK_Med(T_ASK14[i], q.x)
    [] m = "BSSA14" -> BSSA_Med(T_BSSA14[i], q.x, q.pga)
    \* spectral accelerations below 0.25 s are not below the PGA
    [] m = "CB14" -> LET r == CB_Med(T_CB14[i], q.x, q.pga) IN
                     IF i <= 21 /\ T_CB14[i].period < "0.25" THEN MaxR(r, CB_Med(T_CB14[22], q.x, q.pga)) ELSE r
    [] m = "CY14" -> CY_Med(T_CY14[i], q.x)
    [] m = "I14" -> I14_Med(i, q.x)
    [] m = "AB06" -> AB06_Med(i, q.x, q.ab)
    [] m = "C03" -> C03_Med(T_C03[i], q.x)
    [] m = "PZT11" -> PZT_Med(T_PZT11[i], q.x)
    [] m = "TP05" -> TP_Med(T_TP05[i], q.x)
    [] m = "ASB14" -> ASB_Med(i, q.x, q.pga)
    [] m = "DBC14" -> DBC_Med(i, q.h)
    [] m = "AGA16" -> AGA_Med(i, q.x, q.a, q.f, q.pga)
    [] m = "CH14" -> CH_Med(i, q.x, q.f, q.pga)
    [] m = "BA19" -> BA_Med(i, q.x, q.ba)
    [] m = "GA11" -> GA_Med(T_GA11[i], q.x)
    [] m = "AB20" -> AB20_Med(q.x, q.kind, q.gm)
    [] m = "AS96" -> AS96_Med(q.x)
    [] m = "KS06" -> KS06_Med(i, q.x)
    [] m = "AS16" -> AS16_Med(i, q.x)
    [] m = "USER" -> USER_Med(T_USER[i], q.x)
    [] m = "PR23" -> Ln(PR23_Dur(q.x, "0.75")[1])
    [] m = "PR24" -> Ln(PR24_Dur(q.x, "0.75")[1])

LnStd(m, q, i) ==
  CASE m = "ASK14" -> ASK_Std(T_ASK14[i], q.x)
    [] m = "BSSA14" -> BSSA_Std(T_BSSA14[i], q.x)
    [] m = "CB14" -> CB_Std(T_CB14[i], q.x, q.pga)
    [] m = "CY14" -> CY_Std(T_CY14[i], q.x)
    [] m = "I14" -> I14_Std(i, q.x)
    [] m = "AB06" -> "0.30"
    [] m = "C03" -> C03_Std(T_C03[i], q.x)
    [] m = "PZT11" -> PZT_Std(T_PZT11[i], q.x)
    [] m = "TP05" -> TP_Std(T_TP05[i], q.x)
    [] m = "ASB14" -> ASB_Std(i, q.x)
    [] m = "DBC14" -> DBC_Std(i)
    [] m = "AGA16" -> AGA_Std(T_AGA16[i])
    [] m = "CH14" -> AGA_Std(T_CH14[i])
    [] m = "BA19" -> BA_Std(i, q.x)
    [] m = "GA11" -> GA_Std(T_GA11[i], q.x)
    [] m = "AB20" -> AB20_Std(q.x, q.kind)
    [] m = "AS96" -> "0.55"
    [] m = "KS06" -> KS06_Std(i)
    [] m = "AS16" -> AS16_Std(i, q.x)
    [] m = "USER" -> T_USER[i].s_0 + ((q.x.mag - 6) * "0.01")
    [] OTHER -> NaN
=============================================================================
