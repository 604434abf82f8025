----------------------------- MODULE Durations ------------------------------
(* AS96, KS06, AS16, PR23 and PR24 significant durations                     *)
EXTENDS Basins

LOCAL Moment(mag) == 10 ^ ("1.5" * mag + "16.05")
LOCAL Source(stress, mag) == ((stress / Moment(mag)) ^ (-(1 / 3))) / ("4.9e6" * "3.2")

(* ---- Abrahamson and Silva (1996) ---------------------------------------- *)
AS96_Incr(e) ==
    IF e < "0.10" \/ e > "0.95" THEN NaN
    ELSE LET q == Ln((e - "0.05") / (1 - e)) IN "-0.532" + "0.552" * q - "0.0262" * Sq(q)
AS96_Base(s) ==
    Ln(Source(Exp("5.204" + "0.851" * (s.mag - 6)), s.mag)
       + (IF s.site_cond = "soil" THEN "0.805" ELSE 0) + "0.063" * MaxR(s.dist_rup - 10, 0))
LOCAL AS96_E == <<"0.10","0.15","0.20","0.25","0.30","0.35","0.40","0.45","0.50","0.55","0.60","0.65","0.70","0.75","0.80","0.85","0.90","0.95">>
LOCAL AS96_S == <<"0.843","0.759","0.713","0.691","0.674","0.660","0.646","0.636","0.628","0.616","0.605","0.594","0.582","0.565","0.545","0.528","0.510","0.493">>
\* ln duration at normalized Arias intensity e, k standard errors from the median
AS96_At(s, e, k) == AS96_Base(s) + AS96_Incr(e)
                    + (IF IsNone(k) THEN 0 ELSE k * Interp(e, AS96_E, AS96_S))
AS96_Med(s) == AS96_At(s, "0.75", "None")

(* ---- Kempton and Stewart (2006): D5-75a, D5-95a, D5-75v, D5-95v --------- *)
KS06_Med(i, s) ==
    LET d == s.mag - 6
        stress == Exp(<<"6.02", "2.79" + "0.82" * d, "5.46", "1.53" + "1.34" * d>>[i])
    IN Ln(Source(stress, s.mag) + <<"0.07", "0.15", "0.10", "0.15">>[i] * s.dist_rup
          + <<"0.82", "3.00", "1.40", "3.99">>[i] + <<"-0.0013", "-0.0041", "-0.0022", "-0.0062">>[i] * s.v_s30)
KS06_Std(i) == <<"0.57", "0.47", "0.66", "0.52">>[i]

(* ---- Afshari and Stewart (2016): D5-75, D5-95, D20-80 ------------------- *)
LOCAL AS16_B(mech) ==
    CASE mech = "NS" -> <<<<"1.555", "2.541", "1.409">>, <<"4.992", "3.170", "4.778">>>>
      [] mech = "RS" -> <<<<"0.7806", "1.612", "0.7729">>, <<"7.061", "4.536", "6.188">>>>
      [] mech = "SS" -> <<<<"1.279", "2.302", "0.8804">>, <<"5.578", "3.467", "6.188">>>>
      [] OTHER -> <<<<"1.280", "2.182", "0.8822">>, <<"5.576", "3.628", "6.182">>>>
AS16_Med(i, s) ==
    LET b == AS16_B(s.mechanism)
        m1 == <<"5.35", "5.2", "5.2">>[i]
        m2 == <<"7.15", "7.4", "7.4">>[i]
        stress == Exp(b[2][i] + <<"0.9011", "0.9443", "0.7414">>[i] * (MinR(s.mag, m2) - 6)
                      + <<"-1.684", "-3.911", "-3.164">>[i] * MaxR(s.mag - m2, 0))
        fE == IF s.mag <= m1 THEN b[1][i] ELSE Source(stress, s.mag)
        r == s.dist_rup
        fP == <<"0.1159", "0.3165", "0.0646">>[i] * MinR(r, 10)
              + <<"0.1065", "0.2539", "0.0865">>[i] * MaxR(MinR(r, 50) - 10, 0)
              + <<"0.0682", "0.0932", "0.0373">>[i] * MaxR(r - 50, 0)
        dz == IF IsNone(s.depth_1_0) THEN 0 ELSE 1000 * (s.depth_1_0 - CY_Depth10(s.v_s30, "california"))
    IN Ln(fE + fP) + <<"-0.2246", "-0.3183", "-0.4237">>[i] * Ln(MinR(s.v_s30, 600) / <<"368.2", "369.9", "369.6">>[i])
       + <<"0.0006", "0.0006", "0.0005">>[i] * MinR(dz, 200)
AS16_Std(i, s) ==
    LET t1 == <<"0.28", "0.25", "0.30">>[i]
        t2 == <<"0.25", "0.19", "0.19">>[i]
        p1 == <<"0.54", "0.43", "0.56">>[i]
        p2 == <<"0.41", "0.35", "0.45">>[i]
    IN Sqrt(Sq(t1 + (t2 - t1) * Clip((s.mag - "6.5") / "0.5", 0, 1))
            + Sq(p1 + (p2 - p1) * Clip((s.mag - "5.5") / "0.25", 0, 1)))

(* ---- energy thresholds of the conditional models ------------------------ *)
LOCAL Closest(tab, e) == ArgMin(Vec([k \in 1..LenR(tab) |-> AbsR(tab[k].energy - e)]))
LOCAL IsMedian(e) == AbsR(e - "0.75") <= "0.00000752"
LOCAL PlusMinus(med, sig, n) == <<med, (med ^ n + sig) ^ (1 / n), (med ^ n - sig) ^ (1 / n)>>
PR_EnergyOk(e) == ~(e < "0.10" \/ e > "0.95")

(* ---- Pinilla-Ramos et al. (2023): <<median, plus, minus>> ---------------- *)
LOCAL PR23_D575(s) ==
    LET r == s.dist_rup
        v == s.v_s30
        c2 == IF r <= 10 THEN "0.41" + ("0.455" - "0.41") * (r / 10)
              ELSE IF r <= 42 THEN "0.455" + ("0.54" - "0.455") * ((r - 10) / 32)
              ELSE "0.54" + ("0.575" - "0.54") * ((r - 42) / 158)
        src == "3.655" * 10 ^ ((s.mag - "6.75") * (IF s.mag < "6.75" THEN "0.515" ELSE c2))
        path == "0.041" * r
                + (IF r < 44 THEN "0.063" * r
                   ELSE IF r < 130 THEN "0.063" * 44 + "0.034" * (r - 44)
                   ELSE "0.063" * 44 + "0.034" * (130 - 44) + "0.083" * (r - 130))
        phi == IF v >= 2000 THEN 0
               ELSE IF v >= 1900 THEN "0.565" * ((Ln(2000) - Ln(v)) / (Ln(2000) - Ln(1900)))
               ELSE IF v >= 275 THEN "0.565"
               ELSE IF v >= 200 THEN "0.565" + ("1.11" - "0.565") * ((Ln(275) - Ln(v)) / (Ln(275) - Ln(200)))
               ELSE "1.11"
    IN src + path + "-0.619" * Ln(v / 2000) * Exp("0.278" * phi)
LOCAL PR23_Sig(s) ==
    LET x == s.dist_rup / 100
    IN "0.537" - "0.093" * x + "0.0278" * Sq(x) - "0.0372" * s.mag + "0.00179" * Sq(s.mag)
       + MinR("0.0206" * ((200 / s.v_s30) ^ "2.401"), "0.0419")
PR23_Dur(s, e) ==
    LET n == "0.3"
        med == PR23_D575(s)
        sig == PR23_Sig(s)
        k == T_PR23[Closest(T_PR23, e)]
        c == k.cmed + k.a0 + k.r1x * s.dist_rup + k.v1x * Ln(s.v_s30 / 2000)
        dA == c ^ n
        dC == (med ^ n) * n * (c ^ (n - 1))
        cond == Sqrt(Sq(dA * sig) + Sq(dC * k.std_c) + 2 * k.r * dA * dC * sig * k.std_c)
    IN IF IsMedian(e) THEN PlusMinus(med, sig, n) ELSE PlusMinus(c * med, cond, n)

(* ---- Pinilla-Ramos et al. (2024) ----------------------------------------- *)
PR24_Supported(s) ==
    /\ s.event_type \in {"interface", "slab"}
    /\ s.region \in {"Japan", "New Zealand", "South America", "Taiwan"}
    /\ ~(s.event_type = "interface" /\ s.region = "Taiwan")
PR24_D575(s) ==
    LET i == s.event_type = "interface"
        reg == CASE s.region = "Japan" -> IF i THEN <<"0.03", "-2.485">> ELSE <<"0.046", "-1.480">>
                 [] s.region = "New Zealand" -> IF i THEN <<"0.024", "-2.420">> ELSE <<"0.032", "-1.252">>
                 [] s.region = "South America" -> IF i THEN <<"0.024", "-2.248">> ELSE <<"0.042", "-1.510">>
                 [] OTHER -> <<"0.038", "-1.151">>
        src == IF i THEN "5.268" * 10 ^ ((s.mag - 7) * "0.275")
               ELSE IF s.mag < 6 THEN "0.340" * 10 ^ ((s.mag - "4.25") * "0.5")
               ELSE "0.340" * 10 ^ ((6 - "4.25") * "0.5") + "2.770" * ((s.mag - 6) / "2.5")
        near == IF i THEN "0.031" ELSE "0.013"
        far == IF i THEN "0.029" ELSE "0.020"
    IN src + reg[1] * s.dist_rup + reg[2] * Ln(s.v_s30 / 3100)
       + near * MinR(s.dist_rup, 250) + far * MaxR(s.dist_rup - 250, 0)
PR24_Sig(s) ==
    LET x == s.dist_rup / 100
    IN IF s.event_type = "interface"
       THEN "0.3107" - "0.0393" * x + "0.0062" * Sq(x) - "0.0519" * s.mag + "0.0041" * Sq(s.mag) + "0.0028" * Ln(s.v_s30)
       ELSE "0.3035" - "0.0188" * x + "0.004" * Sq(x) - "0.0288" * s.mag + "0.0019" * Sq(s.mag) + "0.0038" * Ln(s.v_s30)
PR24_Dur(s, e) ==
    LET i == s.event_type = "interface"
        n == IF i THEN "0.15" ELSE "0.25"
        tab == IF i THEN T_PR24i ELSE T_PR24s
        k == tab[Closest(tab, e)]
        med == PR24_D575(s)
        sig == PR24_Sig(s)
        c == k.c_median + k.a0 + k.m1 * s.mag + k.r1 * (s.dist_rup / 100) + k.v1 * Ln(s.v_s30 / 3100)
        var == Sq(sig) * (c ^ (2 * n)) + Sq(n) * Sq(k.sigma_c) * (med ^ (2 * n)) * (c ^ (2 * n - 2))
               + 2 * n * k.rho_c_d575 * (c ^ (2 * n - 1)) * (med ^ n) * sig * k.sigma_c
    IN IF IsMedian(e) \/ Near(k.energy, "0.75", "1e-6") THEN PlusMinus(med, sig, n)
       ELSE PlusMinus(med * c, Sqrt(var), n)
PR24_Scale(name) ==
    CASE name = "D5-10" -> "0.25" [] name = "D5-20" -> "0.35" [] name = "D5-30" -> "0.50" [] name = "D5-40" -> "0.65"
      [] name = "D5-50" -> "0.75" [] name = "D5-60" -> "0.85" [] name = "D5-70" -> "0.95" [] name = "D5-75" -> 1
      [] name = "D5-80" -> "1.10" [] name = "D5-85" -> "1.25" [] name = "D5-90" -> "1.45" [] name = "D5-95" -> "1.80"
      [] OTHER -> "None"
=============================================================================
