------------------------------- MODULE Trends -------------------------------
(* Scenarios moved away from the earthquake, or given another magnitude.     *)
EXTENDS Models

Durations3 == {"AS96", "KS06", "AS16"}
Attenuating == {"ASK14", "BSSA14", "CB14", "CY14", "I14", "C03", "ASB14", "DBC14", "AGA16", "CH14"}
Trended(m) == IF m \in Durations3 THEN {"duration"} ELSE IF m \in Attenuating THEN {"distance", "magnitude"} ELSE {"magnitude"}
Distances == <<"dist_rup", "dist_jb", "dist_hyp", "dist_epi", "dist_x", "dist_y0">>
Has(s, p) == HasKey(s, p) /\ ~IsNone(s[p])
Put(s, p, v) == IF Has(s, p) THEN With(s, p, v) ELSE s
\* away from the hanging wall
Footwall(s) ==
    LET a == IF HasKey(s, "on_hanging_wall") THEN With(s, "on_hanging_wall", FALSE) ELSE s
    IN IF Has(a, "dist_x") THEN With(a, "dist_x", -(AbsR(a.dist_x) + "0.5")) ELSE a
RECURSIVE Scale(_, _, _)
ScaleOne(s, p, f) == IF Has(s, p) THEN With(s, p, s[p] * f) ELSE s
Scale(s, f, k) == IF k > Len(Distances) THEN s ELSE Scale(ScaleOne(s, Distances[k], f), f, k + 1)
RECURSIVE Far(_, _, _)
FarOne(s, p, d) == IF Has(s, p) THEN With(s, p, d) ELSE s
Far(s, d, k) == IF k > 4 THEN s ELSE Far(FarOne(s, Distances[k], d), d, k + 1)
\* the magnitudes and distances of which the trends are claimed
LOCAL Below(s, p) == ~Has(s, p) \/ (s[p] <= 200 /\ (p = "dist_rup" => s[p] >= 1))
Fits(m, what, s) ==
    LET r == Par(m, "mag") IN
    /\ IsNone(r.lo) \/ s.mag >= r.lo
    /\ IsNone(r.hi) \/ s.mag <= r.hi
    /\ s.mag <= (IF m = "AB06" /\ what = "magnitude" THEN "8" ELSE "8.5")
    /\ \A k \in 1..4 : Below(s, Distances[k])
Excepted(m, what, s) == m = "CY14" /\ what = "magnitude" /\ Get(s, "region", "None") \in {"japan", "italy"}
=============================================================================
