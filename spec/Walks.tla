------------------------------- MODULE Walks --------------------------------
(* Pseudo-random sessions of Session.tla, and pairs of programs to interleave *)
EXTENDS Session, Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NWALKS == EnvInt("NWALKS", 40)
LENGTH == EnvInt("LENGTH", 12)
WHICH == Env("WHICH", "session")
MOST == EnvInt("MOST", 0)

VARIABLES wkId, wkState, wkOps, wkFine

LOCAL H(what, n) == Hash(SEED * 100000 + wkId, Len(wkOps), what, n)
LOCAL P(what, q) == q[1 + H(what, Len(q))]
LOCAL Primary == MODELS[1 + (wkId % Len(MODELS))]
LOCAL Names(m) == Vec([i \in 1..Len(Params(m)) |-> Params(m)[i].n])
\* spoil: the caller overwrites the result afterwards
LOCAL Base(op) == [op |-> op, m |-> "", s |-> EmptyRec, opt |-> EmptyRec, args |-> EmptyRec, at |-> 0, what |-> "", how |-> "",
                   way |-> "linear", spoil |-> 0, cell |-> 0]
\* a new scenario, or one parameter of an earlier one changed
LOCAL ScenarioFor(m) ==
    LET same == SelectIdx([j \in 1..Len(wkState.models) |-> wkState.models[j].m = m])
        fresh == Sample(m, 1 + H("n", 100000), P("style", <<"dom", "dom", "any", "min">>))
        old == wkState.models[same[1 + H("old", Len(same))]].s
        p == P("p", Names(m))
        g == GridSeq[m][p]
        v == g[1 + H("v", Len(g))]
        t == IF Strange(Par(m, p), v) THEN old ELSE With(old, p, v)
        c == IF Len(same) > 0 /\ H("vary", 10) < 7 THEN t ELSE fresh
    IN IF Physical(m, c) /\ ~Missing(m, c) THEN c ELSE fresh
LOCAL Build == LET m == IF H("prim", 4) < 3 THEN Primary ELSE P("any", MODELS) IN
    [Base("build") EXCEPT !.m = m, !.s = ScenarioFor(m), !.opt = P("opt", OptGrid(m)),
                          !.how = P("how", <<"scenario", "scenario", "dict", "proxy", "userdict">>)]
LOCAL T(what) == LET q == <<"0.01", "0.02", "0.05", "0.1", "0.15", "0.2", "0.3", "0.5", "0.75", "1", "1.7", "2", "3", "5", "7.5", "10">>
                     s == SelectSeq(q, LAMBDA t : H(what \o t, 2) = 0) IN IF Len(s) < 3 THEN q ELSE s
LOCAL Values(n, what, lo, span, d) == Vec([j \in 1..n |-> Dec(lo + H(what \o Str(j), span), d)])
LOCAL Calls == <<"BJ.calc_correls", "BJ.cms", "KI.cms", "BA18.corr", "BA18.cov", "BA18.cov component", "PJ17.cov", "PJ17.cor", "PJ17.variances",
                 "PR24.duration_model", "site">>
LOCAL Call == LET f == P("fn", Calls)
                  t == T("T")
                  n == Len(t)
                  fr == Values(4, "f", 100, 9000, 2)
                  args == CASE f = "BJ.calc_correls" -> [T |-> t, cond |-> <<P("c", t)>>]
                            [] f = "BJ.cms" -> [T |-> t, mu |-> Values(n, "mu", -300, 400, 2), sd |-> Values(n, "sd", 40, 60, 2),
                                                cond |-> <<P("c", t)>>, target |-> Values(1, "tg", -200, 300, 2)]
                            [] f = "KI.cms" -> [T |-> t, mu |-> Values(n, "mu", -300, 400, 2), sd |-> Values(n, "sd", 40, 60, 2),
                                                masked |-> Vec([j \in 1..n |-> IF j = 2 \/ H("in" \o Str(j), 3) = 0 THEN Dec(H("tg" \o Str(j), 300), 2) ELSE "None"])]
                            [] f \in {"BA18.corr", "BA18.cov component", "PJ17.variances"} -> [F |-> fr]
                            [] f = "BA18.cov" -> [F |-> fr, std |-> Values(4, "std", 10, 90, 2)]
                            [] f \in {"PJ17.cov", "PJ17.cor"} -> [F |-> fr, sE |-> Values(4, "se", 10, 90, 2), sS |-> Values(4, "ss", 10, 90, 2),
                                                                  sA |-> Values(4, "sa", 10, 90, 2)]
                            [] f = "PR24.duration_model" -> [mag |-> Values(4, "m", 450, 400, 2), dist_rup |-> Values(4, "d", 1, 290, 0),
                                                             v_s30 |-> Values(4, "v", 150, 1500, 0)]
                            [] f = "site" -> [ref |-> Values(26, "r", 1, 900, 3), v |-> Values(1, "v", 150, 1200, 0)]
              IN [Base("call") EXCEPT !.what = f, !.args = args, !.how = P("how", <<"list", "array", "tuple">>),
                                      !.spoil = H("scribble", 2), !.m = IF f = "site" THEN P("sm", <<"ASK14", "CY14">>) ELSE ""]
LOCAL Backwards(q) == Vec([j \in 1..Len(q) |-> q[Len(q) + 1 - j]])
LOCAL Living == SelectIdx([j \in 1..Len(wkState.models) |-> Alive(wkState, j)])
LOCAL Target(what) == P(what, Living)
LOCAL Interp_ == LET j == Target("ij")
                     m == wkState.models[j].m
                 IN IF Len(Interps(m)) = 0 THEN [Base("read") EXCEPT !.at = j, !.what = P("w", Whats(m)), !.m = m]
                    ELSE [Base("interp") EXCEPT !.at = j, !.m = m, !.what = P("fn", Interps(m)), !.args = [T |-> IF m \in {"PR23", "PR24"} THEN <<P("e", Thresholds)>> ELSE Backwards(T("T"))],
                                                !.way = IF Doc(m).kind # "gmm" THEN "" ELSE P("way", <<"", "linear", "nearest", "cubic", "zero", "quadratic">>),
                                                !.how = P("how", <<"list", "array", "tuple">>), !.spoil = H("spoil", 2)]
LOCAL Asking(op) == LET j == Target(op) IN
    [Base(op) EXCEPT !.at = j, !.m = wkState.models[j].m, !.what = P("w", Whats(wkState.models[j].m))]
LOCAL Asks(o) == o.op \in {"read", "interp", "scribble"}
RECURSIVE First(_)
First(i) == IF i = 1 THEN 1 ELSE First(i - 1) + Passes(wkOps[i - 1])     \* the first of the cells made by an operation
LOCAL Again(kinds) == \* an earlier build or question once more, with the objects of then or with equal ones
    LET q == SelectIdx([i \in 1..Len(wkOps) |-> wkOps[i].op \in kinds /\ (Asks(wkOps[i]) => Alive(wkState, wkOps[i].at))])
        i == P("again", q)
        o == wkOps[i]
    IN IF Len(q) = 0 THEN Build
       ELSE IF o.cell > 0 \/ Uses(o) = 0 \/ H("same", 2) = 0 THEN o ELSE [o EXCEPT !.cell = First(i)]
\* of a construction or question just now: one of its objects changed, to be passed in once more
LOCAL Last == wkOps[Len(wkOps)]
LOCAL Changed == LET before == wkOps[Len(wkOps) - 1]
                     n == IF before.cell > 0 THEN before.cell ELSE First(Len(wkOps) - 1) IN
                 IF Len(wkOps) > 1 /\ Last.op = "change" /\ Uses(before) > 0 /\ Last.at >= n /\ Last.at < n + Uses(before)
                    /\ (Asks(before) => Alive(wkState, before.at))
                 THEN [before EXCEPT !.cell = n] ELSE Build
LOCAL Change == IF H("latest", 2) = 0 /\ Passes(Last) > 0
                THEN [Base("change") EXCEPT !.at = First(Len(wkOps)) + H("which", Passes(Last))]
                ELSE [Base("change") EXCEPT !.at = 1 + H("cell", Len(wkState.cells))]
PROP_ == Env("PROP", "C03")
LOCAL Letters == IF PROP_ = "C28" THEN <<"b", "b", "x", "x", "x", "r", "s", "c", "i", "d", "t">>
                 ELSE <<"b", "b", "b", "a", "q", "q", "r", "s", "s", "c", "c", "i", "i", "f", "f", "d", "x", "t">>
LOCAL Copy == LET j == Target("dup") IN
    [Base(P("send", <<"dup", "dup", "send">>)) EXCEPT !.at = j, !.m = wkState.models[j].m, !.how = P("how", <<"copy", "copy", "deepcopy", "deepcopy", "pickle", "pickle0", "pickle2", "pickle3", "pickle4", "pickle5">>)]
LOCAL Drawn ==
    IF Len(Living) = 0 THEN Build
    ELSE IF Last.op = "change" /\ H("more", 2) = 0 THEN Changed
    ELSE CASE P("op", Letters) = "b" -> Build
           [] P("op", Letters) = "a" -> Again({"build"})
           [] P("op", Letters) = "q" -> Again({"interp", "call"})
           [] P("op", Letters) = "r" -> Asking("read")
           [] P("op", Letters) = "s" -> Asking("scribble")
           [] P("op", Letters) = "c" -> Change
           [] P("op", Letters) = "d" -> [Base("forget") EXCEPT !.at = Target("drop")]
           [] P("op", Letters) = "t" -> LET j == Target("spoilt") IN [Base("tamper") EXCEPT !.at = j, !.m = wkState.models[j].m]
           [] P("op", Letters) = "i" -> Interp_
           [] P("op", Letters) = "x" -> Copy
           [] OTHER -> Call

\* of two programs: two thirds are the same model for two scenarios, the others any two
LOCAL Either == IF wkId * 3 <= NWALKS * 2 THEN LET s == Sample(Primary, 1 + H("fresh", 100000), "dom") IN
                    [Base("build") EXCEPT !.m = Primary, !.s = s, !.opt = P("opt", OptGrid(Primary)), !.how = "scenario"]
                ELSE IF H("call", 3) > 0 THEN Call ELSE Build

Init == wkId \in 1..NWALKS /\ wkState = Empty /\ wkOps = <<>> /\ wkFine = TRUE
LOCAL Steps == IF WHICH = "threads" THEN 2 ELSE LENGTH
Next == /\ Len(wkOps) < Steps
        /\ LET o == IF WHICH = "threads" THEN Either ELSE Drawn
               n == After(wkState, o)
           IN /\ wkOps' = Append(wkOps, o) /\ wkState' = n /\ wkId' = wkId
              \* of the specification: only `change` touches a cell, only `forget` and `tamper` a model
              /\ wkFine' = (/\ \A j \in 1..Len(wkState.cells) : n.cells[j] = wkState.cells[j] \/ (o.op = "change" /\ o.at = j)
                            /\ \A j \in 1..Len(wkState.models) : Same(n.models[j], wkState.models[j]) \/ (o.op = "forget" /\ o.at = j)
                                  \/ (o.op = "tamper" /\ wkState.models[j].kin = wkState.models[o.at].kin))
Isolated == wkFine
Emitted == Len(wkOps) = Steps =>
    IF WHICH = "session" THEN Emit(PLAN, [k |-> "session", m |-> Primary, tag |-> "walk", ops |-> wkOps])
    \* of each model, once: the two programs ask the same model
    ELSE Emit(PLAN, [k |-> "threads", m |-> Primary, tag |-> "two", ops |-> wkOps, most |-> MOST])
         /\ wkOps[1].op = "build" => Emit(PLAN, [k |-> "threads", m |-> Primary, tag |-> "one model", ops |-> <<wkOps[1], wkOps[1]>>, most |-> MOST])
=============================================================================
