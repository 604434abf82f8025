------------------------------- MODULE Tables -------------------------------
(* The published coefficients: the specification's own frozen copy, one      *)
(* record per period (row).                                                  *)
EXTENDS RealArith, Sequences

LOCAL T(name) == LoadJson("tables/" \o name \o ".json")
T_ASK14 == T("ASK14")
T_BSSA14 == T("BSSA14")
T_CB14 == T("CB14")
T_CY14 == T("CY14")
T_I14s == T("I14s")
T_I14l == T("I14l")
T_AB06bc == T("AB06bc")
T_AB06rock == T("AB06rock")
T_AB06sf == T("AB06sf")
T_AB06site == T("AB06site")
T_C03 == T("C03")
T_PZT11 == T("PZT11")
T_TP05 == T("TP05")
T_ASBjb == T("ASBjb")
T_ASBhyp == T("ASBhyp")
T_ASBepi == T("ASBepi")
T_AGA16 == T("AGA16")
T_CH14 == T("CH14")
T_BA19 == T("BA19")
T_GA11 == T("GA11")
T_BA18 == T("BA18")
T_DBC14 == T("DBC14")
T_USER == T("USER")
T_PJS17 == T("PJS17")
T_PR23 == T("PR23")
T_PR24i == T("PR24interface")
T_PR24s == T("PR24slab")

Col(tab, name) == Vec([i \in 1..LenR(tab) |-> tab[i][name]])
Sq(x) == x * x
=============================================================================
