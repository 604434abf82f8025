--------------------------- MODULE JudgeSessions ----------------------------
(* Traces of sessions against the transitions of the store.                  *)
EXTENDS JudgeRelations, Store

LOCAL SameResult(got, want) ==
    CASE want.exc = "any" -> got.exc # "None"
      [] want.exc # "None" -> got.exc = want.exc
      [] HasKey(want, "v") -> got.exc = "None" /\ SameVal(got.v, want.v)
      [] OTHER -> got.exc = "None"
LOCAL SameHeap(got, want) == LenR(got) = Len(want) /\ \A i \in 1..Len(want) : SameMap(got[i], want[i])
RECURSIVE Follow(_, _, _)
Follow(e, h, i) ==
    IF i > Len(e.ops) THEN Ok
    ELSE LET o == e.ops[i]
             r == Apply(h, o)
             g == e.o.steps[i]
             at == " at step " \o Str(i)
             bad == Judge(SameResult(g, r.res), o.op \o " " \o o.key \o at, g, r.res)
                    \o Judge(SameHeap(g.heap, r.heap), "scenarios after " \o o.op \o at, g.heap, r.heap)
                    \o Judge(\A j \in 1..LenR(g.kinds) : g.kinds[j] = "Scenario", "kind of the objects" \o at, g.kinds, "Scenario")
         IN IF bad # Ok THEN bad ELSE Follow(e, r.heap, i + 1)
Heaped(e) == Follow(e, <<>>, 1)
=============================================================================
