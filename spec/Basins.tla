------------------------------- MODULE Basins -------------------------------
(* Published estimators of depths and widths, shared by several models.      *)
EXTENDS Tables

\* exp(slope ln((v^p + vref^p) / (1360^p + vref^p))) / 1000, in km
LOCAL DepthCurve(v, power, vref, slope) ==
    Exp((slope / power) * Ln((v ^ power + vref ^ power) / (1360 ^ power + vref ^ power))) / 1000

\* Abrahamson et al. (2014), eqs 18 and 19
ASK_Depth10(v, region) ==
    IF region = "japan" THEN DepthCurve(v, 2, 412, "-5.23") ELSE DepthCurve(v, 4, 610, "-7.67")
\* Bayless and Abrahamson (2019)
BA_Depth10(v) == DepthCurve(v, 4, 610, "-7.67")
\* Chiou and Youngs (2014); also Afshari and Stewart (2016)
CY_Depth10(v, region) ==
    IF region = "japan" THEN DepthCurve(v, 2, "412.39", "-5.23") ELSE DepthCurve(v, 4, "570.94", "-7.15")

CY_DepthTor(mag, mech) ==
    Sq(MaxR(0, IF mech = "RS" THEN "2.704" - "1.226" * MaxR(mag - "5.849", 0)
                              ELSE "2.673" - "1.136" * MaxR(mag - "4.970", 0)))

ASK_Width(mag, dip) == MinR(18 / Sin(Radians(dip)), 10 ^ ("-1.75" + "0.45" * mag))
ASK_DepthTor(mag) == IF mag <= 5 THEN "7.8"
                     ELSE IF mag >= "7.2" THEN 0
                     ELSE "7.8" * (("7.2" - mag) / "2.2")

\* Campbell and Bozorgnia (2014); z10 only matters without a velocity
CB_Depth25(v, region, z10) ==
    LET given(x) == ~IsNone(x) /\ ~Eq(x, 0) IN
    IF given(v) THEN IF region = "japan" THEN Exp("5.359" - "1.102" * Ln(v))
                                         ELSE Exp("7.089" - "1.144" * Ln(v))
    ELSE IF given(z10) THEN IF region = "japan" THEN Exp("0.408" - "1.745" * Ln(z10))
                                                ELSE Exp("1.392" - "1.798" * Ln(z10))
    ELSE "NotImplementedError"
CB_DepthHyp(mag, dip, tor, bor) ==
    tor + Exp(MinR(MinR("-4.317" + "0.984" * mag, "2.325") + MinR("0.0445" * (dip - 40), 0),
                   Ln("0.9" * (bor - tor))))
CB_Width(mag, dip, tor, bot) ==
    MinR(Sqrt(10 ^ ((mag - "4.07") / "0.98")), (bot - tor) / Sin(Radians(dip)))
CB_DepthBor(tor, dip, width) == tor + width * Sin(Radians(dip))

AB20_LnPeriod(mag) == "-4.09" + "0.66" * mag
=============================================================================
