------------------------------- MODULE Sites --------------------------------
(* Calls of the public site-term calculators.                                *)
EXTENDS Scenarios

PLAN == Env("PLAN", "plan.ndjson")
NSAMPLES == EnvInt("NSAMPLES", 60)
KIND == Env("KIND", "site")

VARIABLES stModel, stIndex

LOCAL H(n, what, q) == q[1 + Hash(SEED, n, what, Len(q))]
LOCAL V(m, n) == IF Hash(SEED, n, "vk", 2) = 0 THEN H(n, "v1", GridSeq[m]["v_s30"]) ELSE Dec(1500 + Hash(SEED, n, "v2", 13500), 1)
LOCAL Z(m, n) == IF Hash(SEED, n, "zk", 4) = 0 /\ m \in {"ASK14", "BSSA14"} THEN "None"
                 ELSE IF m = "CB14" THEN H(n, "z1", <<"0", "0.5", "1", "1.001", "2.2", "3", "3.001", "7.5", Dec(Hash(SEED, n, "z2", 800), 2)>>)
                 ELSE H(n, "z1", <<"0", "0.01", "0.1", "0.5", "2", Dec(Hash(SEED, n, "z2", 2000), 3), Dec(Hash(SEED, n, "z3", 700), 3)>>)
LOCAL Ref(n, j) == Dec(1 + Hash(SEED, n, j, IF Hash(SEED, n, 3 * j + 1, 3) = 0 THEN 2000 ELSE 200), 3)
LOCAL Region(m, n) == H(n, "r", <<"california", "japan", "omit", "italy", "china", "global", "taiwan">>)
Init == stModel \in {MODELS[i] : i \in 1..Len(MODELS)} /\ stIndex = 0
Next == stIndex < NSAMPLES /\ stIndex' = stIndex + 1 /\ stModel' = stModel
Emitted == stIndex > 0 =>
    LET n == stIndex
        vector == stModel \in {"ASK14", "CY14"} /\ Hash(SEED, n, "vec", 2) = 0
        r == Region(stModel, n)
    IN Emit(PLAN, [k |-> KIND, m |-> stModel, tag |-> IF vector THEN "array" ELSE "number",
                   ref |-> IF vector THEN Vec([j \in 1..Len(Table(stModel)) |-> Ref(n, j)]) ELSE Ref(n, 1),
                   v |-> V(stModel, n), z |-> Z(stModel, n),
                   region |-> IF stModel = "CY14" /\ r = "omit" THEN "california" ELSE r,
                   s |-> Sample(stModel, n, "any")])
=============================================================================
