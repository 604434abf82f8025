------------------------------- MODULE Store --------------------------------
(* Scenarios as the user sees them: a heap of isolated finite maps.          *)
(* An operation is a record; Apply gives the next heap and the result.       *)
(* Used by the explorer (Heaps) and by the judge, so that traces of the      *)
(* implementation are checked against the same transitions.                  *)
EXTENDS Verdicts

\* absent keys are absent from the record; values are decimal strings, options, "None"
Known(k) == \E i \in 1..Len(Vocabulary) : Vocabulary[i] = k
AllKnown(s) == \A k \in DOMAIN s : Known(k)
Without(s, k) == ToRec([x \in DOMAIN s \ {k} |-> s[x]])
RECURSIVE Merged(_, _)
Merged(s, t) == IF DOMAIN t = {} THEN s
                ELSE LET k == CHOOSE x \in DOMAIN t : TRUE IN Merged(With(s, k, t[k]), Without(t, k))
SameMap(s, t) == DOMAIN s = DOMAIN t /\ \A k \in DOMAIN s : SameVal(s[k], t[k])

\* results: an exception, nothing, or a value
Raises(name) == [exc |-> name]
NoResult == [exc |-> "None"]
Gives(v) == [exc |-> "None", v |-> v]
LOCAL Next_(h, r) == [heap |-> h, res |-> r]
Duplicates == {"copy", "copy.copy", "deepcopy", "pickle", "again", "copy_with"}

Apply(h, o) ==
    CASE o.op = "new" -> IF AllKnown(o.s) THEN Next_(Append(h, o.s), NoResult) ELSE Next_(h, Raises("any"))
      [] o.op = "with" -> IF AllKnown(o.s) THEN Next_(Append(h, Merged(h[o.at], o.s)), NoResult) ELSE Next_(h, Raises("any"))
      [] o.op = "dup" -> Next_(Append(h, h[o.at]), NoResult)
      [] o.op = "set" -> Next_([h EXCEPT ![o.at] = With(h[o.at], o.key, o.v)], NoResult)
      [] o.op = "del" -> IF HasKey(h[o.at], o.key) THEN Next_([h EXCEPT ![o.at] = Without(h[o.at], o.key)], NoResult)
                         ELSE Next_(h, Raises("KeyError"))
      [] o.op = "item" -> Next_(h, IF HasKey(h[o.at], o.key) THEN Gives(h[o.at][o.key]) ELSE Raises("KeyError"))
      [] o.op = "attr" -> Next_(h, IF HasKey(h[o.at], o.key) THEN Gives(h[o.at][o.key]) ELSE Raises("AttributeError"))
      [] o.op = "has" -> Next_(h, Gives(HasKey(h[o.at], o.key)))
      [] o.op = "same" -> Next_(h, Gives(SameMap(h[o.at], h[o.to])))
      [] o.op = "print" -> Next_(h, NoResult)

(* ---- the properties of the store itself (C01), for TLC ------------------- *)
OnlyVocabulary(h) == \A i \in 1..Len(h) : AllKnown(h[i])
\* an operation touches at most the object it names, and only `set` and `del` touch it
Frame(h, o, h2) == \A i \in 1..Len(h) : i <= Len(h2) /\ (Same(h[i], h2[i]) \/ (o.op \in {"set", "del"} /\ o.at = i))
CopyHolds(h, o, h2) ==
    (o.op \in {"with", "dup"} /\ Len(h2) > Len(h)) =>
        LET c == h2[Len(h2)]
            g == IF o.op = "with" THEN o.s ELSE EmptyRec
        IN /\ DOMAIN c = DOMAIN h[o.at] \cup DOMAIN g
           /\ \A k \in DOMAIN c : Same(c[k], IF k \in DOMAIN g THEN g[k] ELSE h[o.at][k])
=============================================================================
