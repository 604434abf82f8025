----------------------------- MODULE OtherGMMs ------------------------------
(* I14; AB06, C03, PZT11, TP05; ASB14, DBC14; AGA16 and its Hanford variant  *)
EXTENDS Basins

(* ---- Idriss (2014): two coefficient sets split at M 6.75 ---------------- *)
I14_Med(i, s) ==
    LET c == IF s.mag <= "6.75" THEN T_I14s[i] ELSE T_I14l[i]
    IN c.alpha_1 + c.alpha_2 * s.mag + c.alpha_3 * Sq("8.5" - s.mag)
       + c.gamma * s.dist_rup - (c.beta_1 + c.beta_2 * s.mag) * Ln(s.dist_rup + 10)
       + c.epsilon * Ln(s.v_s30) + (IF s.mechanism = "RS" THEN c.phi ELSE 0)
I14_Std(i, s) == "1.18" + "0.035" * Ln(Clip(T_I14s[i].period, "0.05", 3)) - "0.06" * Clip(s.mag, 5, "7.5")

(* ---- Atkinson and Boore (2006), stress adjustment of (2011) ------------- *)
LOCAL AB06_Rock(s) == Eq(s.v_s30, 0)
LOCAL AB06_Row(s, i) == IF AB06_Rock(s) THEN T_AB06rock[i] ELSE T_AB06bc[i]
LOCAL SfPer == Col(T_AB06sf, "period")
LOCAL SitePer == Col(T_AB06site, "period")
LOCAL AB06_Stress(s) ==
    LET q == MinR(2, (10 ^ ("3.45" - "0.2" * s.mag)) / 140)
    IN Vec([k \in 1..LenR(T_AB06sf) |->
            LET c == T_AB06sf[k]
            IN q * MinR(c.delta + "0.05", "0.05" + c.delta * (MaxR(s.mag - c.m_1, 0) / (c.m_h - c.m_1)))])
LOCAL AB06_Log10Ref(s, i, stress) ==
    LET c == AB06_Row(s, i)
        r == s.dist_rup
        f0 == MaxR(Log10(10 / r), 0)
        f1 == MinR(Log10(r), Log10(70))
        f2 == MaxR(Log10(r / 140), 0)
    IN c.c_1 + c.c_2 * s.mag + c.c_3 * Sq(s.mag) + (c.c_4 + c.c_5 * s.mag) * f1
       + (c.c_6 + c.c_7 * s.mag) * f2 + (c.c_8 + c.c_9 * s.mag) * f0 + c.c_10 * r
       + Interp(c.period, SfPer, stress)
LOCAL AB06_SiteVec(s, pga) ==
    LET v == s.v_s30
        p == MaxR(pga, 60)
    IN Vec([k \in 1..LenR(T_AB06site) |->
            LET c == T_AB06site[k]
                bnl == IF v <= 180 THEN c.b_1
                       ELSE IF v <= 300 THEN (c.b_1 - c.b_2) * (Ln(v / 300) / Ln(180 / 300)) + c.b_2
                       ELSE IF v <= 760 THEN c.b_2 * (Ln(v / 760) / Ln(300 / 760))
                       ELSE 0
            IN (c.b_lin * Ln(v / 760) + bnl * Ln(p / 100)) / Ln(10)])
\* context: stress vector and site vector
AB06_Ctx(s) ==
    LET st == AB06_Stress(s)
    IN [st |-> st, site |-> IF AB06_Rock(s) THEN "None" ELSE AB06_SiteVec(s, 10 ^ AB06_Log10Ref(s, 3, st))]
AB06_Med(i, s, x) ==
    Ln(10) * (AB06_Log10Ref(s, i, x.st)
              + (IF AB06_Rock(s) THEN 0 ELSE Interp(T_AB06bc[i].period, SitePer, x.site))
              - Log10("980.665"))

(* ---- Campbell (2003) ---------------------------------------------------- *)
C03_Med(c, s) ==
    LET r == s.dist_rup
    IN c.c_1 + c.c_2 * s.mag + c.c_3 * Sq("8.5" - s.mag)
       + c.c_4 * Ln(Sqrt(Sq(r) + Sq(c.c_7 * Exp(c.c_8 * s.mag)))) + (c.c_5 + c.c_6 * s.mag) * r
       + (IF r > 70 THEN c.c_9 * Ln(r / 70) ELSE 0) + (IF r > 130 THEN c.c_10 * Ln(r / 130) ELSE 0)
C03_Std(c, s) == IF s.mag < "7.16" THEN c.c_11 + c.c_12 * s.mag ELSE c.c_13

(* ---- Pezeshk, Zandieh and Tavakoli (2011) ------------------------------- *)
PZT_Med(c, s) ==
    LET r == Sqrt(Sq(s.dist_rup) + Sq(c.c_11))
    IN Ln(10) * (c.c_1 + c.c_2 * s.mag + c.c_3 * Sq(s.mag)
        + (c.c_4 + c.c_5 * s.mag) * MinR(Log10(r), Log10(70))
        + (c.c_6 + c.c_7 * s.mag) * MaxR(MinR(Log10(r / 70), Log10(2)), 0)
        + (c.c_8 + c.c_9 * s.mag) * MaxR(Log10(r / 140), 0) + c.c_10 * r)
PZT_Std(c, s) ==
    Sqrt(Sq(IF s.mag <= 7 THEN c.c_12 * s.mag + c.c_13 ELSE c.c_14 - "0.00695" * s.mag) + Sq(c.sigma_reg))

(* ---- Tavakoli and Pezeshk (2005) ---------------------------------------- *)
TP_Med(c, s) ==
    LET r == s.dist_rup
        m25 == ("8.5" - s.mag) ^ "2.5"
        R == Sqrt(Sq(r) + Sq(c.c_5 * Exp(c.c_6 * s.mag + c.c_7 * m25)))
    IN c.c_1 + c.c_2 * s.mag + c.c_3 * m25
       + c.c_9 * Ln(r + "4.5") + (IF r > 70 THEN c.c_10 * Ln(r / 70) ELSE 0)
       + (IF r > 130 THEN c.c_11 * Ln(r / 130) ELSE 0)
       + (c.c_4 + c.c_13 * s.mag) * Ln(R) + (c.c_8 + c.c_12 * s.mag) * R
TP_Std(c, s) == IF s.mag < "7.2" THEN c.c_14 + c.c_15 * s.mag ELSE c.c_16

(* ---- Akkar, Sandikkaya and Bommer (2014) -------------------------------- *)
ASB_Metric(s) == IF ~IsNone(s.dist_jb) THEN "dist_jb"
                 ELSE IF ~IsNone(s.dist_hyp) THEN "dist_hyp"
                 ELSE IF ~IsNone(s.dist_epi) THEN "dist_epi" ELSE "None"
ASB_Row(s, i) == CASE ASB_Metric(s) = "dist_jb" -> T_ASBjb[i]
                   [] ASB_Metric(s) = "dist_hyp" -> T_ASBhyp[i]
                   [] OTHER -> T_ASBepi[i]
LOCAL ASB_Ref(c, s) ==
    LET r == s[ASB_Metric(s)]
        d == s.mag - c.c_1
    IN c.a_1 + (IF s.mag <= c.c_1 THEN c.a_2 ELSE c.a_7) * d + c.a_3 * Sq("8.5" - s.mag)
       + (c.a_4 + c.a_5 * d) * Ln(Sqrt(Sq(r) + Sq(c.a_6)))
       + (IF s.mechanism = "NS" THEN c.a_8 ELSE IF s.mechanism = "RS" THEN c.a_9 ELSE 0)
ASB_Pga(s) == Exp(ASB_Ref(ASB_Row(s, 1), s))
ASB_Med(i, s, pga) ==
    LET c == ASB_Row(s, i)
        q == s.v_s30 / 750
    IN ASB_Ref(c, s)
       + (IF s.v_s30 <= 750
          THEN c.b_1 * Ln(q) + c.b_2 * Ln((pga + c.c * q ^ c.n) / ((pga + c.c) * q ^ c.n))
          ELSE c.b_1 * Ln(MinR(s.v_s30, c.v_con) / 750))
ASB_Std(i, s) == ASB_Row(s, i).sd_total

(* ---- Derras, Bard and Cotton (2014): one hidden layer ------------------- *)
DBC_Hidden(s) ==
    LET mech == CASE s.mechanism = "NS" -> 1 [] s.mechanism = "RS" -> 3 [] s.mechanism = "SS" -> 4 [] OTHER -> NaN
        scaled(k, v) == LET l == T_DBC14.min_max[k] IN 2 * ((v - l[1]) / (l[2] - l[1])) - 1
        p == <<scaled("log10_dist_jb", Log10(s.dist_jb)), scaled("mag", s.mag),
               scaled("log10_v_s30", Log10(s.v_s30)), scaled("depth_hyp", s.depth_hyp),
               scaled("mechanism", mech)>>
    IN Vec([k \in 1..LenR(T_DBC14.w_1) |-> Tanh(T_DBC14.b_1[k] + DotR(T_DBC14.w_1[k], p))])
DBC_Med(i, h) ==
    LET out == T_DBC14.b_2[i] + DotR(T_DBC14.w_2[i], h)
        \* the output limits are given per period
        lo == T_DBC14.min_max.log10_resp[i][1]
        hi == T_DBC14.min_max.log10_resp[i][2]
    IN Ln(10) * (("0.5" * (out + 1) * (hi - lo) + lo) - Log10(IF i = 1 THEN "0.01" ELSE "9.80665"))
DBC_Std(i) == T_DBC14.log10_std.total[i] * Ln(10)

(* ---- Abrahamson, Gregor and Addo (2016), BC Hydro ------------------------ *)
LOCAL AGA_Default(c, slab) ==
    IF slab THEN "-0.3"
    ELSE Interp(Ln(MaxR("0.01", c.period)),
                Vec(<<Ln("0.3"), Ln("0.5"), Ln(1), Ln(2), Ln(3)>>), <<"0.2", "0.1", 0, "-0.1", "-0.2">>)
\* user adjustment a: "None", a number or a sequence per row
AGA_Adj(c, i, s, a) ==
    IF IsNone(a) THEN AGA_Default(c, s.event_type = "intraslab")
    ELSE IF IsNum(a) THEN a ELSE a[i]
LOCAL AGA_Mag(c, mag, adj) ==
    LET brk == "7.8" + adj
    IN (IF mag <= brk THEN c.t_4 ELSE c.t_5) * (mag - brk) + c.t_13 * Sq(10 - mag)
LOCAL AGA_Site(c, v, pga) ==
    LET q == MinR(v, 1000) / c.v_lin
    IN IF v < c.v_lin THEN c.t_12 * Ln(q) - c.b * Ln(pga + c.c) + c.b * Ln(pga + c.c * q ^ c.n)
       ELSE (c.t_12 + c.b * c.n) * Ln(q)
LOCAL AGA_Resp(c, i, s, a, scale, v, pga) ==
    LET slab == s.event_type = "intraslab"
        r == IF slab THEN s.dist_hyp ELSE s.dist_rup
        adj == AGA_Adj(c, i, s, a)
    IN c.t_1 + c.t_4 * adj
       + (c.t_2 + (IF slab THEN c.t_14 ELSE 0) + c.t_3 * (s.mag - "7.8")) * Ln(r + c.c_4 * Exp(c.t_9 * (s.mag - 6)))
       + scale * c.t_6 * r + (IF slab THEN c.t_10 ELSE 0) + AGA_Mag(c, s.mag, adj)
       + AGA_Site(c, v, pga)
       + (IF s.tectonic_region # "backarc" THEN 0
          ELSE IF slab THEN c.t_7 + c.t_8 * Ln(MaxR(r, 85) / 40)
          ELSE c.t_15 + c.t_16 * Ln(MaxR(r, 100) / 40))
       + (IF slab THEN c.t_11 * (MinR(s.depth_hyp, 120) - 60) ELSE 0)
AGA_Pga(s, a, scale) == Exp(AGA_Resp(T_AGA16[1], 1, s, a, scale, 1000, NaN))
AGA_Med(i, s, a, scale, pga) == AGA_Resp(T_AGA16[i], i, s, a, scale, s.v_s30, pga)
AGA_Std(c) == Sqrt(Sq(c.phi) + Sq(c.tau))

(* ---- Coppersmith and Bommer (2014), Hanford ------------------------------ *)
LOCAL CH_Resp(c, i, s, scale, v, pga) ==
    LET r == s.dist_rup
        adj == AGA_Adj(c, i, s, "None")
    IN c.t_1 + c.t_4 * adj + (c.t_2 + c.t_3 * (s.mag - "7.8")) * Ln(r + c.c_4 * Exp(c.t_9 * (s.mag - 6)))
       + scale * c.t_6 * r + AGA_Mag(c, s.mag, adj) + AGA_Site(c, v, pga) + c.t_16 * Ln(MaxR(r, 40) / 40)
CH_Pga(s, scale) == Exp(CH_Resp(T_CH14[1], 1, s, scale, 1000, NaN))
CH_Med(i, s, scale, pga) == CH_Resp(T_CH14[i], i, s, scale, s.v_s30, pga)
=============================================================================
