------------------------------ MODULE Session -------------------------------
(* The user's session: own objects (cells), constructed models, calls.       *)
(* Contents are symbolic: a cell is named by its index and version, a model  *)
(* by what it was constructed from, a result by what was asked of what.      *)
(* The guarantees C03 and C04 say that the implementation's contents are a   *)
(* function of these names.                                                  *)
EXTENDS JudgeSessions, FiniteSets

\* what a model can be asked for
Whats(m) ==
    CASE Doc(m).kind = "gmm" -> <<"periods", "spec_accels", "ln_stds", "pga", "ln_std_pga", "pgv", "ln_std_pgv", "pgd", "ln_std_pgd">>
                                \o (IF m = "AGA16" THEN <<"adjust_c1">> ELSE <<>>)
      [] m = "BA19" -> <<"eas", "ln_eas", "freqs", "ln_std">>
      [] m = "GA11" -> <<"ratio", "ln_std">>
      [] m = "AB20" -> <<"pgv", "ln_std">>
      [] m \in {"AS96", "KS06", "AS16"} -> <<"duration", "std_err">>
      [] OTHER -> <<"duration", "duration_plus_sigma", "duration_minus_sigma">>
\* how a model interpolates
Interps(m) == CASE Doc(m).kind = "gmm" -> <<"interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds">>
                [] m = "GA11" -> <<"interp_ratio", "interp_ln_std">>
                [] m = "AS96" -> <<"interp", "calc_ln_dur_incr">>
                [] m \in {"PR23", "PR24"} -> <<"duration_for_energy">>
                [] OTHER -> <<>>

Empty == [cells |-> <<>>, models |-> <<>>]
LOCAL NewCells(st, n) == st.cells \o Vec([i \in 1..n |-> 0])      \* versions
\* how many of the caller's objects an operation passes in, and how many of them are new
\* (cell: the first of those of an earlier operation, passed in once more, as they are now)
Uses(o) == IF o.op = "build" THEN 1 + Cardinality({k \in DOMAIN o.opt : IsSeq(o.opt[k])})
           ELSE IF o.op \in {"interp", "call"} THEN Cardinality(DOMAIN o.args) ELSE 0
Passes(o) == IF o.cell > 0 THEN 0 ELSE Uses(o)
\* the versions of the objects passed in
Now(st, o) == Vec([i \in 1..Uses(o) |-> IF o.cell > 0 THEN st.cells[o.cell + i - 1] ELSE 0])
Gone == [m |-> "", s |-> EmptyRec, opt |-> EmptyRec, now |-> <<>>, kin |-> 0]
Alive(st, j) == st.models[j].m # ""
After(st, o) ==
    CASE o.op = "build" -> [cells |-> NewCells(st, Passes(o)),
                            models |-> Append(st.models, [m |-> o.m, s |-> o.s, opt |-> o.opt, now |-> Now(st, o),
                                                              kin |-> Len(st.models) + 1])]
      [] o.op \in {"interp", "call"} -> [st EXCEPT !.cells = NewCells(st, Passes(o))]
      [] o.op = "change" -> [st EXCEPT !.cells[o.at] = @ + 1]
      [] o.op = "forget" -> [st EXCEPT !.models[o.at] = Gone]
      \* copied, or pickled and restored: a shallow copy shares the parts of its original, the others share nothing
      [] o.op = "dup" -> [st EXCEPT !.models = Append(@, [@[o.at] EXCEPT !.kin = IF o.how = "copy" THEN @ ELSE Len(st.models) + 1])]
      \* the scenario that a model returned is changed: the model, and what shares it, is done with
      [] o.op = "tamper" -> [st EXCEPT !.models = Vec([j \in 1..Len(@) |-> IF st.models[j].kin = st.models[o.at].kin THEN Gone ELSE st.models[j]])]
      [] OTHER -> st           \* read, scribble, send (to another process, which is asked there)
\* the name of the result of an operation
Asked(st, o) ==
    CASE o.op = "build" -> <<"model", o.m, o.s, o.opt, Now(st, o)>>
      [] o.op \in {"dup", "send"} -> LET b == st.models[o.at] IN <<"model", b.m, b.s, b.opt, b.now>>
      [] o.op = "read" -> <<"read", st.models[o.at], o.what>>
      [] o.op = "interp" -> <<"interp", st.models[o.at], o.what, o.way, o.args, Now(st, o)>>
      [] o.op = "call" -> <<"call", o.what, o.args, Now(st, o)>>
      [] OTHER -> <<>>

(* ---- judging a recorded session ------------------------------------------ *)
\* cd, md: the contents recorded for the cells and models (digests)
RECURSIVE Track(_, _, _, _, _)
Track(e, st, cd, md, i) ==
    IF i > Len(e.ops) THEN Ok
    ELSE LET o == e.ops[i]
             g == e.o.steps[i]
             at == " at step " \o Str(i) \o " (" \o o.op \o " " \o o.m \o " " \o o.what \o ")"
             nxt == After(st, o)
             \* the contents of new cells before the operation; a changed cell is recorded anew
             cells == Vec([j \in 1..Len(nxt.cells) |->
                           IF j > Len(st.cells) THEN g.made[j - Len(st.cells)]
                           ELSE IF nxt.cells[j] # st.cells[j] THEN g.cells[j] ELSE cd[j]])
             models == Vec([j \in 1..Len(nxt.models) |-> IF j > Len(st.models) THEN g.models[j]
                                                              ELSE IF ~Alive(nxt, j) THEN "gone" ELSE md[j]])
             frames == IF LenR(g.cells) # Len(nxt.cells) \/ LenR(g.models) # Len(nxt.models)
                       THEN Bad("objects" \o at, <<LenR(g.cells), LenR(g.models)>>, <<Len(nxt.cells), Len(nxt.models)>>)
                       ELSE Each(Len(cells), LAMBDA j : Judge(g.cells[j] = cells[j], "the caller's object " \o Str(j) \o at, g.cells[j], cells[j]))
                            \o Each(Len(models), LAMBDA j : Judge(g.models[j] = models[j], "the reports of model " \o Str(j) \o at, g.models[j], models[j]))
             pure == IF PROP = "C03" \/ Asked(st, o) = <<>> THEN Ok
                     ELSE Judge(g.res = g.fresh, "as in a fresh process" \o at, g.res, g.fresh)
             \* a copy reports what its original does
             alike == IF o.op \in {"dup", "send"} THEN Judge(g.res = md[o.at], "as its original" \o at, g.res, md[o.at]) ELSE Ok
             bad == IF PROP = "C28" THEN alike \o frames ELSE frames \o pure
         IN IF bad # Ok THEN bad ELSE Track(e, nxt, cells, models, i + 1)
Sessions(e) == Track(e, Empty, <<>>, <<>>, 1)
\* two programs, one stopped in the middle while the other runs (C04)
\* runs: the interleavings whose reports are not those of the programs alone
Threads(e) == Judge(e.o.n > 0 \/ e.tag = "one model", "places to interleave at", e.o.n, "some")
              \o Each(Len(e.o.runs), LAMBDA i : Each(2, LAMBDA j :
                    Judge(e.o.runs[i].ran[j] = e.o.alone[j], "program " \o Str(j) \o " stopped at " \o Str(e.o.runs[i].at[1]) \o ", as when run alone",
                          e.o.runs[i].ran[j], e.o.alone[j])))
=============================================================================
