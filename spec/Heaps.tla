------------------------------- MODULE Heaps --------------------------------
(* Sessions with scenarios: TLC explores every sequence of operations up to  *)
(* DEPTH over a small vocabulary (MODE all), or pseudo-random walks over the *)
(* whole vocabulary (MODE walk), checks the store's own properties at every  *)
(* step, and emits the sequences for replay.                                 *)
EXTENDS Store

SEED == EnvInt("SEED", 1)
PLAN == Env("PLAN", "plan.ndjson")
MODE == Env("MODE", "all")
DEPTH == EnvInt("DEPTH", 3)
WALKS == EnvInt("WALKS", 40)
LENGTH == EnvInt("LENGTH", 24)

VARIABLES hpHeap, hpOps, hpWalk, hpFine
hpVars == <<hpHeap, hpOps, hpWalk, hpFine>>

Strangers == <<"Mag", "magnitude", "vs30", "dist", "M", "depth", "dist_rupt", "v_s30_", "data", "period", "KNOWN_KEYS", "copy_with",
               "rake", "depth_1", "z1p0", "region_", "hanging_wall", "_note", "__id__", " mag", "mag ", "MAG", "", "0", "mag.1", "copy",
               "get", "items", "self", "kwds", "é", "#", "None">>
Text == {"event_type", "mechanism", "region", "site_cond", "tectonic_region", "vs_source"}
Flags == {"is_aftershock", "on_hanging_wall"}

(* ---- every short sequence ------------------------------------------------- *)
SmallSets == <<EmptyRec, [mag |-> "6.5"], [mag |-> "7", region |-> "japan"], [mag |-> "6.5", Mag |-> "6.5"]>>
SmallOps(h) ==
    LET objs == 1..Len(h)
        ops == Flat(<<Vec([i \in 1..Len(SmallSets) |-> [op |-> "new", s |-> SmallSets[i], key |-> "", at |-> 0, to |-> 0, v |-> "None", how |-> ""]]),
               Flat(Vec([j \in objs |-> Flat(<<
                  Vec([i \in 1..Len(SmallSets) |-> [op |-> "with", s |-> SmallSets[i], key |-> "", at |-> j, to |-> 0, v |-> "None", how |-> ""]]),
                  <<[op |-> "dup", s |-> EmptyRec, key |-> "", at |-> j, to |-> 0, v |-> "None", how |-> "copy"],
                    [op |-> "set", s |-> EmptyRec, key |-> "mag", at |-> j, to |-> 0, v |-> "8", how |-> ""],
                    [op |-> "set", s |-> EmptyRec, key |-> "dip", at |-> j, to |-> 0, v |-> "None", how |-> ""],
                    [op |-> "del", s |-> EmptyRec, key |-> "mag", at |-> j, to |-> 0, v |-> "None", how |-> ""],
                    [op |-> "attr", s |-> EmptyRec, key |-> "mag", at |-> j, to |-> 0, v |-> "None", how |-> ""],
                    [op |-> "same", s |-> EmptyRec, key |-> "", at |-> j, to |-> 1, v |-> "None", how |-> ""]>>>>)]))>>)
    IN ops
(* ---- walks ---------------------------------------------------------------- *)
LOCAL H(what, n) == Hash(SEED * 100000 + hpWalk, Len(hpOps), what, n)
LOCAL P(what, q) == q[1 + H(what, Len(q))]
LOCAL Value(k, i) ==
    CASE H(k \o "none" \o Str(i), 9) = 0 -> "None"
      [] k \in Text -> P(k \o Str(i), <<"SS", "japan", "measured", "soil", "interface">>)
      [] k \in Flags -> H(k \o Str(i), 2) = 0
      [] OTHER -> Dec(H(k \o Str(i), 2000) - 200, 1)
LOCAL Some(i) == LET a == SelectSeq(Vocabulary, LAMBDA k : H(k \o "in" \o Str(i), 6) = 0)
                     b == IF H("str" \o Str(i), 4) = 0 THEN Append(a, P("which" \o Str(i), Strangers)) ELSE a
                 IN ToRec([k \in {b[j] : j \in 1..Len(b)} |-> Value(k, i)])
LOCAL Key(what) == IF H(what \o "present", 2) = 0
                   THEN LET s == hpHeap[1 + H("at", Len(hpHeap))]
                            q == SelectSeq(Vocabulary, LAMBDA k : HasKey(s, k)) IN IF Len(q) = 0 THEN "mag" ELSE P(what, q)
                   ELSE P(what, Vocabulary)
LOCAL Drawn ==
    LET n == Len(hpHeap)
        kind == IF n = 0 THEN "new" ELSE P("op", <<"new", "with", "with", "with", "dup", "dup", "set", "set", "del", "item", "attr", "has", "same", "print">>)
        key == IF n = 0 THEN "mag" ELSE IF kind \in {"has", "attr"} /\ H("odd", 3) = 0 THEN P("odd", Strangers) ELSE Key("key")
        \* names that are attributes of the class itself are no absent keys
        k2 == IF kind \in {"has", "attr"} /\ key \in {"data", "KNOWN_KEYS", "copy_with", "copy", "get", "items"} THEN "Mag" ELSE key
    IN [op |-> kind, s |-> IF kind \in {"new", "with"} THEN Some(1) ELSE EmptyRec, key |-> k2,
        at |-> IF n = 0 THEN 0 ELSE 1 + H("at", n), to |-> IF n = 0 THEN 0 ELSE 1 + H("to", n), v |-> Value(k2, 2),
        how |-> CASE kind = "dup" -> P("how", <<"copy", "copy.copy", "deepcopy", "pickle", "again", "copy_with">>)
                  [] kind = "set" -> P("how", <<"item", "update">>)
                  [] kind = "del" -> P("how", <<"del", "pop">>)
                  [] OTHER -> ""]

(* ---- every key, and strangers ---------------------------------------------- *)
LOCAL KeyOp(n) ==
    LET k == IF n <= Len(Vocabulary) THEN Vocabulary[n] ELSE Strangers[n - Len(Vocabulary)]
        v == IF k \in Text THEN "RS" ELSE IF k \in Flags THEN TRUE ELSE "7.5"
        o(op, at, key, s) == [op |-> op, s |-> s, key |-> key, at |-> at, to |-> at, v |-> v, how |-> ""]
        one == With(EmptyRec, k, v)
        last == Len(hpHeap)
    IN <<o("new", 0, "", EmptyRec), o("with", 1, "", one), o("attr", last, IF Known(k) THEN k ELSE "mag", EmptyRec), o("new", 0, "", one),
         o("item", last, IF Known(k) THEN k ELSE "mag", EmptyRec), o("has", last, IF Known(k) THEN k ELSE "dip", EmptyRec),
         o("has", 1, IF Known(k) THEN k ELSE "dip", EmptyRec)>>
Init == /\ hpHeap = <<>> /\ hpOps = <<>> /\ hpFine = TRUE
        /\ hpWalk \in IF MODE = "all" THEN {0} ELSE IF MODE = "keys" THEN 1..(Len(Vocabulary) + Len(Strangers)) ELSE 1..WALKS
Do(o) == LET r == Apply(hpHeap, o) IN
         /\ hpHeap' = r.heap /\ hpOps' = Append(hpOps, o) /\ hpWalk' = hpWalk
         /\ hpFine' = (Frame(hpHeap, o, r.heap) /\ CopyHolds(hpHeap, o, r.heap))
Next == IF MODE = "all"
        THEN Len(hpOps) < DEPTH /\ \E i \in 1..Len(SmallOps(hpHeap)) : Do(SmallOps(hpHeap)[i])
        ELSE IF MODE = "keys" THEN Len(hpOps) < 7 /\ Do(KeyOp(hpWalk)[Len(hpOps) + 1])
        ELSE Len(hpOps) < LENGTH /\ Len(hpHeap) < 9 /\ Do(Drawn)
\* C01, of the specification
Vocal == OnlyVocabulary(hpHeap) /\ hpFine
LOCAL Complete == IF MODE = "all" THEN Len(hpOps) = DEPTH ELSE IF MODE = "keys" THEN Len(hpOps) = 7 ELSE Len(hpOps) = LENGTH \/ Len(hpHeap) = 9
Emitted == Complete => Emit(PLAN, [k |-> "scen", m |-> "", tag |-> MODE, ops |-> hpOps])
=============================================================================
