------------------------------ MODULE ExpandGen -----------------------------
(* Shapes of inputs for replay: list lengths, sets, replicas, and everything*)
(* that makes an input invalid.                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxDims, MaxLen, MaxEns
VARIABLE done
Lens == UNION {[1..d -> 1..MaxLen] : d \in 1..MaxDims}
Ens == {-1} \cup 1..MaxEns
Good == {[kind |-> "matrix", lens |-> x, ens |-> e, defect |-> "none"] : x \in Lens, e \in Ens}
        \cup {[kind |-> "set", lens |-> <<m, d>>, ens |-> e, defect |-> "none"] :
                m \in 1..MaxLen, d \in 1..MaxDims, e \in Ens}
        \cup {[kind |-> "plain", lens |-> <<>>, ens |-> e, defect |-> "none"] : e \in Ens \cup {40}}
Bad == {[kind |-> "matrix", lens |-> x, ens |-> e, defect |-> d] :
          x \in {<<2>>, <<2, 3>>, <<1, 2>>}, e \in {-1, 2},
          d \in {"key-in-both", "out_dir-varied", "nested", "colon", "no-out_dir",
                 "matrix-and-set", "ens-float", "ens-str"}}
       \cup {[kind |-> "matrix", lens |-> x, ens |-> 2, defect |-> "seed-in-matrix"] :
               x \in {<<1>>, <<2>>, <<2, 1>>, <<2, 2>>}}
       \cup {[kind |-> "set", lens |-> x, ens |-> e, defect |-> d] :
          x \in {<<2, 2>>, <<3, 2>>}, e \in {-1, 2},
          d \in {"differing-keys", "missing-key", "colon", "no-out_dir", "ens-float", "out_dir-varied"}}
       \cup {[kind |-> "plain", lens |-> <<>>, ens |-> 2, defect |-> d] :
          d \in {"seed-fixed", "no-out_dir", "ens-float"}}
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
        /\ JsonSerialize(IOEnv.GEN_OUT, SetToSeq(Good \cup Bad))
Spec == Init /\ [][Next]_done
=============================================================================
