------------------------------- MODULE Tours --------------------------------
(* Sessions that construct one model again and again, changing one parameter  *)
(* at a time: every ordered pair of options of a category occurs in a row, the *)
(* values of a number are gone through forwards, backwards and in disorder.    *)
(* A result kept from an earlier scenario and told apart by too little of its  *)
(* inputs shows in one of them.  Near tours step to values close to each other *)
(* and back; crowded tours evaluate hundreds of scenarios on their way, so that *)
(* whatever is kept of a limited number of them has overflowed.                *)
EXTENDS Session, Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NBASES == EnvInt("NBASES", 1)
NNEAR == EnvInt("NNEAR", 2)
CROWD == EnvInt("CROWD", 300)

VARIABLES toModel, toParam, toBase

LOCAL Base(op) == [op |-> op, m |-> "", s |-> EmptyRec, opt |-> EmptyRec, args |-> EmptyRec, at |-> 0, what |-> "", how |-> "",
                   way |-> "linear", spoil |-> 0, cell |-> 0]
\* every ordered pair of 1..k in a row, somewhere in the sequence
RECURSIVE Round(_, _, _)
Round(k, i, j) == IF i > k THEN <<1>> ELSE IF j > k THEN (IF i = k THEN <<k>> ELSE <<>>) \o Round(k, i + 1, i + 2)
                  ELSE <<i, j>> \o Round(k, i, j + 1)
Tour(k) == IF k < 2 THEN <<1>> ELSE Round(k, 1, 2)
Adjacent(q, a, b) == \E n \in 1..Len(q) - 1 : q[n] = a /\ q[n + 1] = b
ASSUME \A k \in 2..7 : \A a, b \in 1..k : a # b => Adjacent(Tour(k), a, b)

LOCAL There(n) == Vec([j \in 1..n |-> j])
LOCAL Back(n) == Vec([j \in 1..n |-> n + 1 - j])
LOCAL Disorder(n) == Vec([j \in 1..10 |-> 1 + Hash(SEED, toBase, "at" \o Str(j), n)])
LOCAL GridOf(m, p) == SelectSeq(GridSeq[m][p], LAMBDA v : ~Strange(Par(m, p), v))
LOCAL From == Sample(toModel, toBase * 31 + Hash(SEED, toBase, toParam, 1000), <<"min", "all", "dom">>[1 + ((toBase + Hash(SEED, toModel, toParam, 3)) % 3)])
LOCAL Opt0 == LET q == OptGrid(toModel) IN q[1 + Hash(SEED, toBase, "opt", Len(q))]
LOCAL BuildOf(s, o) == [Base("build") EXCEPT !.m = toModel, !.s = s, !.opt = o, !.how = "dict"]
LOCAL Scens == LET g == GridOf(toModel, toParam)
                   n == Len(g)
                   q == IF n <= 7 THEN Tour(n) ELSE There(n) \o Back(n) \o Disorder(n)
                   all == Vec([j \in 1..Len(q) |-> With(From, toParam, g[q[j]])])
               IN SelectSeq(all, LAMBDA s : Physical(toModel, s) /\ ~Missing(toModel, s))
LOCAL Numeric(v) == ~IsNone(v) /\ IsNum(v)
(* ---- near tours: a value, one close to it, the value again, ... ------------- *)
LOCAL Steps == <<"0.4", "-0.4", "0.04", "-0.04", "0.004", "-0.004", "0.0004", "0.000004", "0.00000004">>
LOCAL Beside == LET v == From[toParam] IN
    Flat(Vec([j \in 1..Len(Steps) |-> <<From, With(From, toParam, DecAdd(Str(v), Steps[j]))>>])) \o <<From>>
LOCAL Close == IF ~HasKey(From, toParam) THEN <<>>
               ELSE IF ~Numeric(From[toParam]) THEN <<>>
               ELSE SelectSeq(Beside, LAMBDA s : Physical(toModel, s))
(* ---- crowded tours ---------------------------------------------------------- *)
LOCAL Shift(n, j) == IF n \in {"v_s30", "dur_ratio"} THEN Str(j) ELSE Dec(j, 3)
LOCAL Shifted(s, j) == ToRec([n \in DOMAIN s |-> IF Numeric(s[n]) THEN DecAdd(Str(s[n]), Shift(n, j)) ELSE s[n]])
LOCAL Many == LET q == Vec([j \in 1..CROWD |-> Shifted(Sample(toModel, (j % 5) + 1 + toBase, IF (j % 2) = 0 THEN "min" ELSE "dom"), j)])
              IN SelectSeq(q, LAMBDA s : Physical(toModel, s) /\ ~Missing(toModel, s))
LOCAL Crowded == LET n == Len(Many)
                     again == SelectSeq(<<1, 2, FloorI(n / 2), n - 1, n>>, LAMBDA j : j > 0)
                     new == Vec([j \in 1..8 |-> Shifted(From, 2 * CROWD + j)])
                     first == BuildOf(From, Opt0)
                 IN <<first, [Base("crowd") EXCEPT !.m = toModel, !.args = [crowd |-> Many], !.opt = Opt0], first>>
                    \o Vec([j \in 1..Len(new) |-> BuildOf(new[j], Opt0)]) \o Vec([j \in 1..Len(again) |-> BuildOf(Many[again[j]], Opt0)])
LOCAL Ops == IF toParam = "crowd" THEN Crowded
             ELSE IF toBase > NBASES THEN LET q == Close IN Vec([j \in 1..Len(q) |-> BuildOf(q[j], Opt0)])
             ELSE IF toParam = "options"
             THEN LET g == OptGrid(toModel)
                      q == Tour(Len(g))
                  IN Vec([j \in 1..Len(q) |-> BuildOf(From, g[q[j]])])
             ELSE LET q == Scens IN Vec([j \in 1..Len(q) |-> BuildOf(q[j], Opt0)])
\* on every other tour each model is forgotten before the next one: its place in memory may be taken by another
RECURSIVE Forgotten(_, _)
Forgotten(q, n) == IF n > Len(q) THEN <<>>
                   ELSE <<q[n], [Base("forget") EXCEPT !.at = n, !.m = toModel]>> \o Forgotten(q, n + 1)
LOCAL Forgetful(q) == IF toBase % 2 = 1 THEN q
    ELSE Forgotten(q, 1)
LOCAL Names(m) == Vec([i \in 1..Len(Params(m)) |-> Params(m)[i].n]) \o (IF Len(OptGrid(m)) > 1 THEN <<"options">> ELSE <<>>)
                     \o <<"crowd">>

Init == /\ toModel \in {MODELS[i] : i \in 1..Len(MODELS)}
        /\ toParam \in {Names(toModel)[i] : i \in 1..Len(Names(toModel))}
        /\ toBase \in 1..(IF toParam = "crowd" THEN 1 + FloorI(NBASES / 8) ELSE NBASES + NNEAR)
Next == FALSE /\ UNCHANGED <<toModel, toParam, toBase>>
Emitted == LET ops == IF toParam = "crowd" THEN Ops ELSE Forgetful(Ops) IN
    Len(ops) > 1 => Emit(PLAN, [k |-> "session", m |-> toModel, tag |-> "tour", ops |-> ops])
=============================================================================
