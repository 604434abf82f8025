------------------------------- MODULE Invar --------------------------------
(* The same inputs in other disguises.                                       *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 30)

VARIABLES ivModel, ivSample, ivDisguise

\* undeclared keys given, or given None; keys in another order; other containers; other numeric types
Disguises == <<"extra", "extra none", "reversed", "sorted", "dict", "userdict", "proxy", "copy", "copy_with", "deepcopy", "pickle",
               "int", "np.int64", "np.int32", "float", "np.float64", "none given", "np.str, np.bool", "np.int16", "np.uint16", "np.uint64", "np.float32",
               "ordereddict", "defaultdict", "chainmap", "dict of a kind", "scenario of a kind", "np.longdouble", "text of a kind", "update", "items", "filled later">>
Init == /\ ivModel \in {MODELS[i] : i \in 1..Len(MODELS)} /\ ivSample \in 1..NSAMPLES /\ ivDisguise = 0
Next == ivDisguise = 0 /\ ivDisguise' \in 1..Len(Disguises) /\ UNCHANGED <<ivModel, ivSample>>

LOCAL Declared == {Params(ivModel)[i].n : i \in 1..Len(Params(ivModel))}
LOCAL Undeclared == LET d == Declared IN SelectSeq(Vocabulary, LAMBDA k : k \notin d)
LOCAL Categories == {"event_type", "mechanism", "region", "site_cond", "tectonic_region", "vs_source", "is_aftershock", "on_hanging_wall"}
LOCAL Extra(k) ==
    LET h == Hash(SEED, ivSample, k \o "x", 3)
    IN CASE k = "mechanism" -> <<"SS", "NS", "RS">>[1 + h]
         [] k = "region" -> <<"japan", "italy", "global">>[1 + h]
         [] k = "event_type" -> <<"interface", "intraslab", "slab">>[1 + h]
         [] k = "site_cond" -> <<"soil", "rock", "soil">>[1 + h]
         [] k = "tectonic_region" -> <<"backarc", "forearc", "backarc">>[1 + h]
         [] k = "vs_source" -> <<"inferred", "measured", "inferred">>[1 + h]
         [] k \in {"is_aftershock", "on_hanging_wall"} -> TRUE
         [] OTHER -> <<"0", "7", "150">>[1 + h]
\* some of the undeclared keys
LOCAL Chosen == SelectSeq(Undeclared, LAMBDA k : Hash(SEED, ivSample, k \o "in", 3) > 0)
Extras == LET q == Vec(Chosen) IN ToRec([k \in {q[i] : i \in 1..Len(q)} |-> Extra(k)])
LOCAL Whole == LET s == Sample(ivModel, 37 * ivSample, "dom") IN
    \* whole numbers, for the integer types
    IF Disguises[ivDisguise] \in {"int", "np.int64", "np.int32", "np.int16", "np.uint16", "np.uint64", "float", "np.float64", "np.float32"}
    THEN ToRec([k \in DOMAIN s |-> IF IsNone(s[k]) \/ k \in Categories \/ k \in {"pga_ref"} THEN s[k]
                                   ELSE Str(FloorI((IF k \in {"dist_rup", "dist_jb"} THEN MaxR(1, s[k]) ELSE RealV(s[k])) + "0.5"))])
    ELSE s
Emitted == ivDisguise > 0 => LET w == Whole IN Physical(ivModel, w) =>
    Emit(PLAN, [k |-> "inv", m |-> ivModel, s |-> w, extra |-> Extras, tag |-> Disguises[ivDisguise],
                opt |-> LET q == OptGrid(ivModel) IN q[1 + Hash(SEED, ivSample, "o", Len(q))]])
=============================================================================
