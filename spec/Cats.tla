-------------------------------- MODULE Cats --------------------------------
(* The entries of the catalogue: every model, and the package itself.        *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
PROP == Env("PROP", "C26")
NSAMPLES == EnvInt("NSAMPLES", 20)

VARIABLES ctModel, ctIndex

\* modules that are imported by the package or by its users
Modules == <<"pygmm", "pygmm.model", "pygmm.baker_jayaram_2008", "pygmm.kishida_2017", "pygmm.bayless_abrahamson_2018", "pygmm.stafford_2017",
             "pygmm.pinilla_ramos_et_al_2023", "pygmm.pinilla_ramos_et_al_2024">>
\* index 0: the entry; 1.. : scenarios with exactly the required parameters
Init == IF PROP = "C27" THEN ctModel \in {Modules[i] : i \in 1..Len(Modules)} /\ ctIndex = 0
        ELSE ctModel \in {AllModels[i] : i \in 1..Len(AllModels)} \cup {"package"} /\ ctIndex = 0
Next == ctModel # "package" /\ PROP # "C27" /\ ctIndex < NSAMPLES /\ ctIndex' = ctIndex + 1 /\ ctModel' = ctModel
LOCAL Required == LET s == Sample(ctModel, ctIndex, "dom")
                      ps == Params(ctModel)
                      \* the distance metric is chosen by the caller or by the type of event
                      metric == CASE ctModel = "ASB14" -> {"dist_jb"} [] ctModel = "CH14" -> {"dist_rup"}
                                  [] ctModel = "AGA16" -> (IF s.event_type = "interface" THEN {"dist_rup"} ELSE {"dist_hyp", "depth_hyp"})
                                  [] OTHER -> {}
                      t == IF ctModel = "ASB14" /\ IsNone(s.dist_jb) THEN With(s, "dist_jb", "20") ELSE s
                  IN ToRec([n \in {ps[i].n : i \in {j \in 1..Len(ps) : ps[j].req}} \cup metric |-> t[n]])
Emitted == IF PROP = "C27" THEN Emit(PLAN, [k |-> "import", m |-> "", tag |-> ctModel])
           ELSE IF ctIndex = 0 THEN Emit(PLAN, [k |-> "cat", m |-> ctModel, tag |-> "entry"])
           ELSE Emit(PLAN, [k |-> "req", m |-> ctModel, tag |-> "required only", s |-> Required,
                            opt |-> IF ctModel = "AB20" THEN [pga |-> "0.2"] ELSE EmptyRec])
=============================================================================
