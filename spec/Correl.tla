------------------------------- MODULE Correl -------------------------------
(* Correlations (BJ08, BA18, PJS17) and conditional spectra (BJ08, Kishida)  *)
EXTENDS Basins

(* ---- Baker and Jayaram (2008) -------------------------------------------- *)
BJ_Cor(t1, t2) ==
    LET lo == MinR(t1, t2)
        hi == MaxR(t1, t2)
        c1 == 1 - Cos(PiR / 2 - "0.366" * Ln(hi / MaxR(lo, "0.109")))
        c2 == IF hi < "0.2"
              THEN 1 - "0.105" * (1 - 1 / (1 + Exp(100 * hi - 5))) * ((hi - lo) / (hi - "0.0099"))
              ELSE 0
        c3 == IF hi < "0.109" THEN c2 ELSE c1
        c4 == c1 + "0.5" * (Sqrt(c3) - c3) * (1 + Cos(PiR * (lo / "0.109")))
    IN IF hi < "0.109" THEN c2
       ELSE IF lo > "0.109" THEN c1
       ELSE IF hi < "0.2" THEN MinR(c2, c4)
       ELSE c4

\* conditional mean spectrum: sequences of ln mean and standard deviation
BJ_Cms(T, mu, sd, tc, target) ==
    LET eps == (target - Interp(tc, T, mu)) / Interp(tc, T, sd)
        rho == Vec([i \in 1..LenR(T) |-> BJ_Cor(T[i], tc)])
    IN [mean |-> Vec([i \in 1..LenR(T) |-> mu[i] + sd[i] * rho[i] * eps]),
        std |-> Vec([i \in 1..LenR(T) |-> sd[i] * Sqrt(MaxR(1 - Sq(rho[i]), 0))])]

(* ---- Kishida (2017): cond[i] is a target or "None" ------------------------ *)
KI_Cms(T, mu, sd, cond) ==
    LET K == SelectIdx([i \in 1..LenR(T) |-> ~IsNone(cond[i])])
        n == LenR(K)
        cov(i, j) == BJ_Cor(T[i], T[j]) * sd[i] * sd[j]
        A == Vec([a \in 1..n |-> Vec([b \in 1..n |-> cov(K[a], K[b])])])
        w == SolveR(A, Vec([a \in 1..n |-> cond[K[a]] - mu[K[a]]]))
        k(i) == Vec([a \in 1..n |-> cov(i, K[a])])
    IN [mean |-> Vec([i \in 1..LenR(T) |-> IF ~IsNone(cond[i]) THEN cond[i] ELSE mu[i] + DotR(k(i), w)]),
        std |-> Vec([i \in 1..LenR(T) |->
                 IF ~IsNone(cond[i]) THEN 0
                 ELSE LET z == k(i) IN Sqrt(MaxR(Sq(sd[i]) - DotR(z, SolveR(A, z)), 0))])]

(* ---- Bayless and Abrahamson (2018) ---------------------------------------- *)
LOCAL BA18_F == Col(T_BA18, "freq_hz")
LOCAL BA18_P == [k \in {"A", "B", "C", "D", "tau", "phi_s2s", "phi_s", "sigma"} |-> Col(T_BA18, k)]
BA18_At(f, k) == Interp(f, BA18_F, BA18_P[k])
BA18_Cor(f1, f2) ==
    IF Eq(f1, f2) THEN 1
    ELSE LET r == AbsR(Ln(f1 / f2))
             m == MinR(f1, f2)
         IN Tanh(BA18_At(m, "A") * Exp(BA18_At(m, "B") * r) + BA18_At(m, "C") * Exp(BA18_At(m, "D") * r))

(* ---- Stafford (2017) ------------------------------------------------------- *)
LOCAL P == T_PJS17
LOCAL Sigmoid(f, a0, a1, a2) == a0 / (1 + Exp(-(a2 * Ln(f / a1))))
PJ_Corner(mag) == 10 ^ (P.CF_C1 - P.CF_C2 * mag)
PJ_CorE(f1, f2, mag) ==
    LET lo == MinR(f1, f2)
        hi == MaxR(f1, f2)
        x == lo / PJ_Corner(mag)
        g == P.gamma_E0 + Sigmoid(x, P.gamma_E1, P.gamma_E2, P.gamma_E3) + P.gamma_E4 * Ln(x / P.gamma_E2)
    IN Exp(g * Ln(hi / lo))
LOCAL Close(f1, f2) == AbsR(f1 - f2) <= "1e-8" + "1e-5" * AbsR(f2)
LOCAL Nugget(rho0, lo, hi) == 1 - (1 - rho0) * (1 - Exp(-(P.nugget_exp * Ln(hi / lo))))
PJ_CorA(f1, f2) ==
    LET lo == MinR(f1, f2)
        hi == MaxR(f1, f2)
        eta == Sigmoid(lo, P.eta_A0, P.eta_A1, P.eta_A2) * (1 + Sigmoid(lo, P.eta_A3, P.eta_A4, P.eta_A5))
        ref == P.gamma_A_FREF
        m == MinR(lo, ref)
        g == P.gamma_A0 + P.gamma_A1 * (m / (m + P.gamma_A2 * (1 - m / ref))) + P.gamma_A3 * Sq(Ln(MaxR(lo, ref) / ref))
    IN IF Close(f1, f2) THEN 1 ELSE Nugget((1 - eta) * Exp(-(g * Ln(hi / lo))), lo, hi)
PJ_CorS(f1, f2) ==
    LET lo == MinR(f1, f2)
        hi == MaxR(f1, f2)
        eta == P.eta_S0 * Ln(Clip(lo, P.eta_S_FREF1, P.eta_S_FREF2) / P.eta_S_FREF1)
               + P.eta_S1 * Ln(MaxR(lo, P.eta_S_FREF2) / P.eta_S_FREF2)
        g == P.gamma_S0 + Sigmoid(lo, P.gamma_S1, P.gamma_S2, P.gamma_S3) + Sigmoid(lo, P.gamma_S4, P.gamma_S5, P.gamma_S6)
    IN IF Close(f1, f2) THEN 1 ELSE Nugget((1 - eta) * Exp(g * Ln(hi / lo)), lo, hi)
PJ_SigE(f) == P.sigma_E0 + Sigmoid(f, P.sigma_E1, P.sigma_E2, P.sigma_E3) + Sigmoid(f, P.sigma_E4, P.sigma_E5, P.sigma_E6)
PJ_SigS(f) == P.sigma_S0 + Sigmoid(f, P.sigma_S1, P.sigma_S2, P.sigma_S3) + Sigmoid(f, P.sigma_S4, P.sigma_S5, P.sigma_S6)
PJ_SigA(f) == P.sigma_A0 + P.sigma_A1 * Sq(Ln(MaxR(f, P.sigma_A_FREF) / P.sigma_A_FREF))
\* e, s, a: supplied standard deviations (sequences) or "None"
PJ_Cov(F, e, s, a, mag) ==
    LET E(i) == IF IsNone(e) THEN PJ_SigE(F[i]) ELSE e[i]
        S(i) == IF IsNone(s) THEN PJ_SigS(F[i]) ELSE s[i]
        Q(i) == IF IsNone(a) THEN PJ_SigA(F[i]) ELSE a[i]
    IN Vec([i \in 1..LenR(F) |-> Vec([j \in 1..LenR(F) |->
         PJ_CorE(F[i], F[j], mag) * E(i) * E(j) + PJ_CorS(F[i], F[j]) * S(i) * S(j)
         + PJ_CorA(F[i], F[j]) * Q(i) * Q(j)])])
PJ_Cor(F, e, s, a, mag) ==
    LET c == PJ_Cov(F, e, s, a, mag)
    IN Vec([i \in 1..LenR(F) |-> Vec([j \in 1..LenR(F) |-> c[i][j] / Sqrt(c[i][i] * c[j][j])])])
=============================================================================
