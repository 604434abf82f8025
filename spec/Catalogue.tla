----------------------------- MODULE Catalogue ------------------------------
(* The documented model catalogue: names, declared parameters with their     *)
(* recommended limits, options and defaults, and the published intensity     *)
(* measures; and the values of interest of every parameter.                  *)
EXTENDS Tables, TLC

Vocabulary == <<"depth_1_0", "depth_2_5", "depth_tor", "depth_bor", "depth_bot", "depth_hyp", "dip",
    "dist_crjb", "dist_jb", "dist_epi", "dist_hyp", "dist_rup", "dist_x", "dist_y0", "dpp_centered",
    "event_type", "is_aftershock", "mag", "mechanism", "on_hanging_wall", "pga_ref", "region",
    "site_cond", "tectonic_region", "v_s30", "vs_source", "width">>

\* A parameter: kind "N" (limits lo and hi) or "C" (options opts); d: default
LOCAL N(n, req, lo, hi, d) == [n |-> n, k |-> "N", req |-> req, lo |-> lo, hi |-> hi, d |-> d, opts |-> <<>>]
LOCAL Q(n, lo, hi) == N(n, TRUE, lo, hi, "None")          \* required number
LOCAL O(n) == N(n, FALSE, "None", "None", "None")         \* optional number
LOCAL C(n, req, opts, d) == [n |-> n, k |-> "C", req |-> req, lo |-> "None", hi |-> "None", d |-> d, opts |-> opts]
LOCAL SNR == <<"SS", "NS", "RS">>
LOCAL USNR == <<"U", "SS", "NS", "RS">>
LOCAL BOOLS == <<TRUE, FALSE>>
LOCAL X == "None"

Params(m) ==
  CASE m = "AB20" -> <<Q("dist_rup", 0, 300), Q("mag", "3.0", "8.0"), Q("v_s30", 180, 1500)>>
    [] m = "AGA16" -> <<Q("mag", 3, "8.5"), O("dist_rup"), O("dist_hyp"), O("depth_hyp"), Q("v_s30", "150.0", "1500.0"),
                        C("event_type", TRUE, <<"interface", "intraslab">>, X),
                        C("tectonic_region", FALSE, <<"forearc", "backarc", "unknown">>, "unknown")>>
    [] m = "AS96" -> <<Q("mag", 4, "7.5"), Q("dist_rup", 0, 250), C("site_cond", TRUE, <<"soil", "rock">>, X)>>
    [] m = "ASK14" -> <<Q("dist_rup", X, 300), Q("dist_jb", X, X), Q("mag", 3, "8.5"), Q("v_s30", 180, 1000),
                        O("depth_1_0"), O("depth_tor"), Q("dip", X, X), N("dist_crjb", FALSE, X, X, 15),
                        O("dist_x"), O("dist_y0"), O("width"), C("mechanism", TRUE, SNR, X),
                        C("region", FALSE, <<"global", "california", "china", "italy", "japan", "taiwan">>, "global"),
                        C("vs_source", FALSE, <<"measured", "inferred">>, "measured"),
                        C("is_aftershock", FALSE, BOOLS, FALSE), C("on_hanging_wall", FALSE, BOOLS, FALSE)>>
    [] m = "AS16" -> <<Q("mag", 3, "7.9"), Q("dist_rup", 0, 200), Q("v_s30", 200, 1000), C("mechanism", TRUE, SNR, X),
                       O("depth_1_0")>>
    [] m = "ASB14" -> <<N("dist_jb", FALSE, 0, 200, X), N("dist_epi", FALSE, 0, 200, X), N("dist_hyp", FALSE, 0, 200, X),
                        Q("mag", 4, 8), Q("v_s30", 150, 1200), C("mechanism", TRUE, SNR, X)>>
    [] m = "AB06" -> <<Q("mag", X, X), Q("dist_rup", X, X), Q("v_s30", X, X)>>
    [] m = "BA19" -> <<Q("dist_rup", 0, 300), Q("mag", "3.0", "8.0"), Q("v_s30", 180, 1500), Q("depth_tor", 0, 20),
                       O("depth_1_0"), C("mechanism", FALSE, SNR, "SS")>>
    [] m = "BSSA14" -> <<Q("mag", 3, "8.5"), O("depth_1_0"), Q("dist_jb", X, "300.0"), Q("v_s30", "150.0", "1500.0"),
                         C("mechanism", FALSE, USNR, "U"),
                         C("region", FALSE, <<"global", "california", "china", "italy", "japan", "new_zealand", "taiwan",
                                              "turkey">>, "global")>>
    [] m = "C03" -> <<Q("mag", "5.0", "8.2"), Q("dist_rup", X, "1000.0")>>
    [] m = "CB14" -> <<O("depth_1_0"), N("depth_2_5", FALSE, 0, 10, X), O("depth_bor"), N("depth_bot", FALSE, X, X, "15.0"),
                       N("depth_hyp", FALSE, 0, 20, X), N("depth_tor", FALSE, 0, 20, X), Q("dip", 15, 90),
                       Q("dist_jb", X, X), Q("dist_rup", X, 300), Q("dist_x", X, X), Q("mag", "3.3", "8.5"),
                       Q("v_s30", 150, 1500), O("width"),
                       C("region", FALSE, <<"global", "california", "japan", "italy", "china">>, "global"),
                       C("mechanism", TRUE, SNR, X)>>
    [] m = "CY14" -> <<Q("dist_rup", 0, 300), Q("dist_x", X, X), Q("dist_jb", X, X), Q("mag", "3.5", "8.5"),
                       Q("v_s30", 180, 1500), N("depth_tor", FALSE, 0, 20, X), O("depth_1_0"),
                       N("dpp_centered", FALSE, X, X, 0), Q("dip", X, X), C("mechanism", FALSE, USNR, "U"),
                       C("on_hanging_wall", FALSE, BOOLS, FALSE),
                       C("region", FALSE, <<"california", "china", "italy", "japan">>, "california"),
                       C("vs_source", FALSE, <<"measured", "inferred">>, "measured")>>
    [] m = "CH14" -> <<Q("mag", 3, "8.5"), O("dist_rup"), Q("v_s30", "150.0", "1500.0"),
                       C("event_type", TRUE, <<"interface", "intraslab">>, X)>>
    [] m = "DBC14" -> <<Q("dist_jb", 5, 200), Q("mag", 4, 7), Q("v_s30", 200, 800), Q("depth_hyp", 0, 25),
                        C("mechanism", TRUE, SNR, X)>>
    [] m = "GA11" -> <<Q("dist_rup", X, 200), Q("mag", 5, "8.5"), Q("v_s30", 450, 1200), Q("pga_ref", "0.001", 10),
                       C("mechanism", TRUE, SNR, X)>>
    [] m = "I14" -> <<Q("dist_rup", X, 150), Q("mag", 5, X), Q("v_s30", 450, 1200),
                      C("mechanism", TRUE, <<"SS", "RS">>, "SS")>>
    [] m = "KS06" -> <<Q("mag", 5, "7.6"), Q("dist_rup", 0, 200), Q("v_s30", 200, 1000)>>
    [] m = "PZT11" -> <<Q("mag", 5, 8), Q("dist_rup", X, 1000)>>
    [] m = "TP05" -> <<Q("dist_rup", X, 1000), Q("mag", "5.0", "8.2")>>
    [] m = "PR23" -> <<Q("mag", "4.0", "8.0"), Q("dist_rup", 0, 300), Q("v_s30", 150, 2000)>>
    [] m = "PR24" -> <<Q("mag", "4.5", "8.5"), Q("dist_rup", 0, 300), Q("v_s30", 150, 2000),
                       C("event_type", TRUE, <<"interface", "slab">>, X),
                       C("region", TRUE, <<"Japan", "New Zealand", "South America", "Taiwan">>, X)>>
    \* a model of a user on the base classes (harness/user_model.py)
    [] m = "USER" -> <<Q("mag", 4, 8), Q("dist_rup", 0, 200), N("depth_tor", FALSE, 0, X, 3), N("dip", FALSE, 0, 90, 45),
                       N("dist_x", FALSE, X, 0, -2), N("depth_1_0", FALSE, 0, 1, X),
                       C("region", FALSE, <<"japan", "italy", "china">>, "italy"), C("is_aftershock", FALSE, BOOLS, TRUE),
                       C("mechanism", TRUE, <<"NS", "SS">>, "SS")>>

\* class, long name, abbreviation, reference velocity, and kind
LOCAL D(c, n, a, v, k) == [cls |-> c, name |-> n, abbrev |-> a, vref |-> v, kind |-> k]
Doc(m) ==
  CASE m = "AB20" -> D("AbrahamsonBhasin2020", "Abrahamson and Bhasin (2020)", "AB20", 425, "pgv")
    [] m = "AGA16" -> D("AbrahamsonGregorAddo2016", "Abrahamson, Gregor, & Addo (2016)", "AGA16", 1000, "gmm")
    [] m = "AS96" -> D("AbrahamsonSilva1996", "Abrahamson Silva (1996)", "AS96", X, "dur")
    [] m = "ASK14" -> D("AbrahamsonSilvaKamai2014", "Abrahamson, Silva, & Kamai (2014)", "ASK14", 1180, "gmm")
    [] m = "AS16" -> D("AfshariStewart2016", "Afshari and Stewart (2016)", "AS16", X, "dur")
    [] m = "ASB14" -> D("AkkarSandikkayaBommer2014", "Akkar, Sandikkaya, & Bommer (2014)", "ASB14", 750, "gmm")
    [] m = "AB06" -> D("AtkinsonBoore2006", "Atkinson and Boore (2006)", "AB06", X, "gmm")
    [] m = "BA19" -> D("BaylessAbrahamson2019", "Bayless and Abrahamson (2019)", "BA19", 760, "fas")
    [] m = "BSSA14" -> D("BooreStewartSeyhanAtkinson2014", "Boore, Stewart, Seyhan, and Atkinson (2014)", "BSSA14", 760, "gmm")
    [] m = "C03" -> D("Campbell2003", "Campbell (2003)", "C03", 2800, "gmm")
    [] m = "CB14" -> D("CampbellBozorgnia2014", "Campbell & Bozorgnia (2014)", "CB14", 1100, "gmm")
    [] m = "CY14" -> D("ChiouYoungs2014", "Chiou and Youngs (2014)", "CY14", 1130, "gmm")
    [] m = "CH14" -> D("CoppersmithBommer2014", "Coppersmith and Bommer (2014)", "CB14", 1000, "gmm")
    [] m = "DBC14" -> D("DerrasBardCotton2014", "Derras, Bard & Cotton (2014)", "DBC13", X, "gmm")
    [] m = "GA11" -> D("GulerceAbrahamson2011", "Gülerce & Abrahamson (2011)", "GA11", 1100, "ratio")
    [] m = "I14" -> D("Idriss2014", "Idriss (2014)", "I14", 1200, "gmm")
    [] m = "KS06" -> D("KemptonStewart2006", "Kempton Stewart (2006)", "KS06", X, "dur")
    [] m = "PZT11" -> D("PezeshkZandiehTavakoli2011", "Pezeshk et al. (2011)", "Pea11", 2000, "gmm")
    [] m = "TP05" -> D("TavakoliPezeshk05", "Tavakoli and Pezeshk (2005)", "TP05", 2880, "gmm")
    [] m = "PR23" -> D("PinillaRamosEtAl2023", "Pinilla-Ramos et al. (2023)", "PR23", X, "energy")
    [] m = "PR24" -> D("PinillaRamosEtAl2024", "Pinilla-Ramos et al. (2024)", "PR24", X, "energy")
    [] m = "USER" -> D("UserModel", "A model of a user", "USER", X, "gmm")

AllModels == <<"AB06", "AB20", "AGA16", "AS16", "AS96", "ASB14", "ASK14", "BA19", "BSSA14", "C03", "CB14", "CH14",
               "CY14", "DBC14", "GA11", "I14", "KS06", "PR23", "PR24", "PZT11", "TP05">>
Gmms == SelectSeq(AllModels, LAMBDA m : Doc(m).kind = "gmm")

\* Entries of the package's list of models, and exported names
ListedModels == {"AbrahamsonSilva1996", "AbrahamsonSilvaKamai2014", "AfshariStewart2016", "AkkarSandikkayaBommer2014",
    "AtkinsonBoore2006", "BaylessAbrahamson2019", "BooreStewartSeyhanAtkinson2014", "Campbell2003",
    "CampbellBozorgnia2014", "ChiouYoungs2014", "CoppersmithBommer2014", "DerrasBardCotton2014",
    "GulerceAbrahamson2011", "KemptonStewart2006", "Idriss2014", "PezeshkZandiehTavakoli2011", "TavakoliPezeshk05",
    "Stafford2017"}

(* ---- intensity measures: table rows (1-based, 0 for none) ---------------- *)
Table(m) ==
  CASE m = "ASK14" -> T_ASK14 [] m = "BSSA14" -> T_BSSA14 [] m = "CB14" -> T_CB14 [] m = "CY14" -> T_CY14
    [] m = "I14" -> T_I14s [] m = "AB06" -> T_AB06bc [] m = "C03" -> T_C03 [] m = "PZT11" -> T_PZT11
    [] m = "TP05" -> T_TP05 [] m = "ASB14" -> T_ASBjb [] m = "AGA16" -> T_AGA16 [] m = "CH14" -> T_CH14
    [] m = "BA19" -> T_BA19 [] m = "GA11" -> T_GA11 [] m = "USER" -> T_USER
LOCAL I(pga, pgv, pgd, first, last, scale) ==
    [pga |-> pga, pgv |-> pgv, pgd |-> pgd, first |-> first, last |-> last, scale |-> scale]
Ims(m) ==
  CASE m = "ASK14" -> I(23, 24, 0, 1, 22, 1)
    [] m = "BSSA14" -> I(2, 1, 0, 3, 107, 1)
    [] m = "CB14" -> I(22, 23, 0, 1, 21, 1)
    [] m = "CY14" -> I(25, 26, 0, 1, 24, 1)
    [] m = "I14" -> I(1, 0, 0, 1, 22, 1)
    [] m = "AB06" -> I(3, 2, 1, 4, 27, "980.665")
    [] m = "C03" -> I(0, 0, 0, 1, 16, 1)
    [] m = "PZT11" -> I(1, 0, 0, 2, 23, 1)
    [] m = "TP05" -> I(1, 0, 0, 2, 14, 1)
    [] m = "ASB14" -> I(1, 2, 0, 3, 64, 1)
    [] m = "DBC14" -> I(2, 1, 0, 3, 64, 1)
    [] m = "AGA16" -> I(1, 0, 0, 2, 23, 1)
    [] m = "CH14" -> I(1, 0, 0, 1, 14, 1)
    [] m = "BA19" -> I(0, 0, 0, 1, 301, 1)
    [] m = "GA11" -> I(1, 2, 0, 3, 24, 1)
    [] m = "AS96" -> I(0, 0, 0, 1, 1, 1)
    [] m = "KS06" -> I(0, 0, 0, 1, 4, 1)
    [] m = "AS16" -> I(0, 0, 0, 1, 3, 1)
    [] m \in {"PR23", "PR24"} -> I(0, 0, 0, 1, 1, 1)
    [] m = "AB20" -> I(0, 1, 0, 1, 1, 1)
    [] m = "USER" -> I(1, 2, 9, 3, 8, "2.5")
\* rows of the response, first and last: those of the spectrum, and all of the V/H table
Reported(m) == IF m = "GA11" THEN <<1, 24>> ELSE <<Ims(m).first, Ims(m).last>>
Period(m, i) == IF m = "DBC14" THEN T_DBC14.period[i] ELSE Table(m)[i].period
PsaPeriods(m) == Vec([j \in 1..(Ims(m).last - Ims(m).first + 1) |-> Period(m, Ims(m).first + j - 1)])

(* ---- values of interest ----------------------------------------------- *)
\* boundaries between the regimes of a model's equations
Marks(m, p) ==
  CASE p = "mag" ->
         (CASE m = "ASK14" -> <<"4", "5", "5.5", "6", "6.5", "7", "6.75", "7.25", "7.2">>
            [] m = "BSSA14" -> <<"4.5", "5.5", "6.2", "7">>
            [] m = "CB14" -> <<"4.5", "5.5", "6.5", "7.5", "8">>
            [] m = "CY14" -> <<"4.5", "5", "5.5", "6", "6.3", "6.5", "6.9", "5.849", "4.97", "8">>
            [] m = "I14" -> <<"6.75", "7.5">>
            [] m = "AB06" -> <<"5", "5.5", "6.5", "7.5">>
            [] m = "C03" -> <<"7.16">> [] m = "TP05" -> <<"7.2">> [] m = "PZT11" -> <<"7">>
            [] m = "ASB14" -> <<"6.75">> [] m = "DBC14" -> <<"5.5">>
            [] m \in {"AGA16", "CH14"} -> <<"7.5", "7.6", "7.8", "8">>
            [] m = "BA19" -> <<"4", "5", "6">> [] m = "GA11" -> <<"5.4", "6.75", "7">>
            [] m = "AB20" -> <<"5", "7", "7.5">>
            [] m = "AS96" -> <<"6">> [] m = "KS06" -> <<"6">>
            [] m = "AS16" -> <<"5.2", "5.35", "5.5", "5.75", "6.5", "7", "7.15", "7.4">>
            [] m = "PR23" -> <<"6.75">> [] m = "PR24" -> <<"6", "7">> [] m = "USER" -> <<"6">>)
    [] p = "dist_rup" ->
         (CASE m = "ASK14" -> <<"30", "80">>
            [] m = "CB14" -> <<"80">> [] m = "CY14" -> <<"40", "70">>
            [] m \in {"AB06", "PZT11"} -> <<"10", "70", "140">> [] m \in {"C03", "TP05"} -> <<"70", "130">>
            [] m = "AGA16" -> <<"85", "100">> [] m = "CH14" -> <<"40">>
            [] m = "AS96" -> <<"10">> [] m = "AS16" -> <<"10", "50">>
            [] m = "PR23" -> <<"10", "42", "44", "130", "200">> [] m = "PR24" -> <<"250">>
            [] OTHER -> <<"50">>)
    [] p = "dist_jb" -> (CASE m = "ASK14" -> <<"0", "30">> [] m = "BSSA14" -> <<"0", "80", "110", "130", "190", "270">>
                           [] m = "DBC14" -> <<"20">> [] OTHER -> <<"0">>)
    [] p = "dist_x" -> <<"0", "10">>
    [] p = "dist_hyp" -> IF m = "AGA16" THEN <<"85">> ELSE <<"30">>
    [] p = "dist_epi" -> <<"30">>
    [] p = "dist_y0" -> <<"0", "5">>
    [] p = "dist_crjb" -> <<"5", "10", "15">>
    [] p = "v_s30" ->
         (CASE m = "ASK14" -> <<"250", "350", "400", "450", "600", "700", "850", "1150", "1180">>
            [] m = "BSSA14" -> <<"225", "300", "360", "760", "925", "1300">>
            [] m = "CB14" -> <<"200", "400", "865", "1100">>
            [] m = "CY14" -> <<"360", "1130">>
            [] m = "AB06" -> <<"180", "300", "760", "2000">>
            [] m = "ASB14" -> <<"750", "1000">>
            [] m \in {"AGA16", "CH14"} -> <<"400", "865.1", "1000", "1032.5", "1053.5", "1085.7">>
            [] m = "BA19" -> <<"200", "300", "360", "500", "760", "1000">>
            [] m = "GA11" -> <<"500", "700", "862", "865.1">>
            [] m = "AS16" -> <<"600">> [] m = "PR23" -> <<"200", "275", "1900", "2000">>
            [] m = "AB20" -> <<"425">> [] OTHER -> <<"500">>)
    [] p = "depth_1_0" -> <<"0", "0.01", "0.1", "0.5", "2">>
    [] p = "depth_2_5" -> <<"0", "1", "3">>
    [] p = "depth_tor" -> IF m = "CB14" THEN <<"0", "8", "16.66">> ELSE IF m = "CY14" THEN <<"0", "5">> ELSE <<"0", "10", "20">>
    [] p = "depth_hyp" -> (CASE m = "AGA16" -> <<"60", "120">> [] OTHER -> <<"7", "13", "20">>)
    [] p = "depth_bot" -> <<"12", "20">>
    [] p = "depth_bor" -> <<"12", "20">>
    [] p = "dip" -> <<"30", "40", "60", "90">>
    [] p = "dpp_centered" -> <<"0">>
    [] p = "pga_ref" -> <<"0", "0.1", "0.5">>
    [] p = "width" -> <<"5", "15", "30">>
    [] OTHER -> <<>>

LOCAL Delta(p) == CASE p = "mag" -> "0.01" [] p = "v_s30" -> "1" [] p = "dip" -> "1" [] p = "pga_ref" -> "0.0005"
                    [] p = "depth_1_0" -> "0.005" [] OTHER -> "0.1"
LOCAL Signed == {"dist_x", "dpp_centered"}
LOCAL Around(p, b) == <<b, DecAdd(b, Delta(p)), DecAdd(b, "-" \o Delta(p))>>

Par(m, p) == LET ps == Params(m) IN ps[CHOOSE i \in 1..Len(ps) : ps[i].n = p]
\* values that lie outside what the equations can be evaluated for
LOCAL Sane(m, p, v) ==
    CASE p = "dip" -> (v > 0 \/ m = "USER") /\ v <= 90
      [] p \in Signed -> TRUE
      [] p = "mag" -> v > 0 /\ (m # "TP05" \/ v <= "8.45")
      [] p = "v_s30" -> v > 50 \/ (m = "AB06" /\ Eq(v, 0))
      [] p = "dist_rup" /\ m \in {"AB06"} -> v > 0
      [] p = "dist_jb" /\ m = "DBC14" -> v > 0
      [] p = "width" -> v > 0
      [] OTHER -> v >= 0
\* models whose equations are defined when a category is unknown
UnknownOk(m, p) == m = "USER" \/ (~(p = "event_type") /\ ~(m = "DBC14") /\ ~(m = "PR24"))

\* values that are none of the options: one like nothing else, and the options written otherwise
LOCAL Otherwise(o) ==
    CASE Same(o, "RS") -> <<"rs", "RS ", "reverse">> [] Same(o, "NS") -> <<"ns">>
      [] Same(o, "japan") -> <<"Japan", "jap">> [] Same(o, "california") -> <<"California">> [] Same(o, "italy") -> <<"ITALY">>
      [] Same(o, "inferred") -> <<"Inferred">> [] Same(o, "backarc") -> <<"Backarc">> [] Same(o, "forearc") -> <<"FOREARC">>
      [] Same(o, "soil") -> <<"Soil">> [] Same(o, "rock") -> <<"Rock">>
      [] Same(o, TRUE) -> <<"yes">> [] OTHER -> <<>>
Unlisted(r) == <<"XX">> \o Flat(Vec([i \in 1..Len(r.opts) |-> Otherwise(r.opts[i])]))
Strange(r, v) == r.k = "C" /\ ~IsNone(v) /\ ~(\E i \in 1..Len(r.opts) : Same(r.opts[i], v))
\* a grid of values, as decimal strings, options, "None" and the unknown categories
LOCAL Opt(b, q) == IF b THEN q ELSE <<>>
Grid(m, p) ==
    LET r == Par(m, p)
        q == Marks(m, p)
        num == Flat(Vec([i \in 1..Len(q) |-> Around(p, q[i])]))
        lim == Opt(~IsNone(r.lo), Around(p, Str(r.lo))) \o Opt(~IsNone(r.hi), Around(p, Str(r.hi)))
        extra == CASE p \in Signed -> <<"-5", "3.5", "25">> [] m = "AB06" /\ p = "v_s30" -> <<"0", "150">>
                   [] p \in {"dist_jb", "dist_rup"} -> <<"0", "1", "5">> [] p = "dist_y0" -> <<"2", "15">> [] OTHER -> <<>>
        sane(v) == Sane(m, p, v)
    IN Uniq((IF r.k = "N" THEN SelectSeq(num \o lim \o extra, sane) ELSE r.opts)
            \o Opt(~r.req, <<"None">>) \o Opt(r.k = "C" /\ UnknownOk(m, p), Unlisted(r)))
\* lattice of a numeric parameter: lo, hi (integers) and decimal places
Lattices(m, p) ==
    LET r == Par(m, p) IN
    CASE p = "mag" -> LET a == IF IsNone(r.lo) THEN 4 ELSE r.lo
                          b == IF IsNone(r.hi) THEN 8 ELSE r.hi
                      IN <<<<IntOf(100 * a), IntOf(100 * b), 2>>, <<IntOf(100 * a), IntOf(100 * b), 2>>,
                          <<IntOf(100 * a) - 80, IntOf(100 * b) + (IF m = "TP05" THEN 25 ELSE 50), 2>>,
                          <<IntOf(10000 * a), IntOf(10000 * b), 4>>>>
      [] p \in {"dist_rup", "dist_jb", "dist_hyp", "dist_epi"} ->
             LET b == IF IsNone(r.hi) THEN 300 ELSE r.hi
                 a == IF m = "DBC14" THEN 50 ELSE 1
             IN <<<<a, 400, 1>>, <<50, 1500, 1>>, <<10, IntOf(b), 0>>, <<100, 1000, 0>>, <<100 * a, 300000, 3>>>>
      [] p = "dist_x" -> <<<<-400, 600, 1>>, <<-20, 300, 1>>, <<-4000, 30000, 3>>>>
      [] p = "dist_y0" -> <<<<0, 300, 1>>, <<0, 25000, 3>>>>
      [] p = "dist_crjb" -> <<<<0, 250, 1>>, <<0, 20000, 3>>>>
      [] p = "v_s30" -> LET a == IF IsNone(r.lo) THEN 100 ELSE r.lo
                            b == IF IsNone(r.hi) THEN 2500 ELSE r.hi
                        IN <<<<IntOf(a), IntOf(b), 0>>, <<IntOf(MaxR(a, 150) * 10), 9000, 1>>, <<IntOf(a), IntOf(b), 0>>, <<700, 2600, 0>>, <<IntOf(MaxR(a, 150) * 1000), 1200000, 3>>>>
      [] p = "depth_1_0" -> <<<<0, 1500, 3>>, <<0, 150000, 5>>>>
      [] p = "depth_2_5" -> <<<<0, 100, 1>>, <<0, 350, 2>>, <<0, 60000, 4>>>>
      [] p = "depth_tor" -> IF m = "CB14" THEN <<<<0, 110, 1>>, <<0, 11000, 3>>>> ELSE <<<<0, 200, 1>>, <<0, 20000, 3>>>>
      [] p = "depth_hyp" -> IF m = "AGA16" THEN <<<<0, 2000, 1>>, <<0, 150000, 3>>>> ELSE <<<<0, 200, 1>>, <<0, 20000, 3>>>>
      [] p = "depth_bot" -> <<<<120, 300, 1>>, <<12000, 30000, 3>>>>
      [] p = "depth_bor" -> <<<<120, 300, 1>>, <<12000, 30000, 3>>>>
      [] p = "dip" -> <<<<15, 90, 0>>, <<15000, 90000, 3>>>>
      [] p = "dpp_centered" -> <<<<-100, 100, 1>>, <<-10000, 10000, 3>>>>
      [] p = "pga_ref" -> <<<<1, 2000, 3>>, <<10, 10000, 3>>, <<100, 100000, 5>>>>
      [] p = "width" -> <<<<20, 500, 1>>, <<2000, 40000, 3>>>>

\* Scenarios the equations are defined for
Given(s, p) == ~IsNone(Get(s, p, "None"))
Physical(m, s) ==
    CASE m = "ASK14" -> (Same(Get(s, "on_hanging_wall", FALSE), TRUE) => Given(s, "dist_x"))
      [] m = "CB14" ->
            LET tor == IF Given(s, "depth_tor") THEN s.depth_tor ELSE "7.4"
                bot == IF Given(s, "depth_bot") THEN s.depth_bot ELSE 15
            IN (Given(s, "width") \/ tor < bot - "0.5") /\ (Given(s, "depth_bor") => s.depth_bor > tor + "0.5")
               \* a rupture is no farther than its projection; far outside, the motion underflows
               /\ s.dist_jb <= 20 * s.dist_rup
      [] m = "AGA16" -> (Get(s, "event_type", "None") = "intraslab" => Given(s, "dist_hyp") /\ Given(s, "depth_hyp"))
                        /\ (Get(s, "event_type", "None") = "interface" => Given(s, "dist_rup"))
      [] m = "CH14" -> Given(s, "dist_rup")
      [] OTHER -> TRUE
\* the names of the durations, in the order of their coefficients
Fields(m) == IF m = "AS16" THEN <<"D_5t75", "D_5t95", "D_20t80">> ELSE <<"D_5t75a", "D_5t95a", "D_5t75v", "D_5t95v">>
=============================================================================
