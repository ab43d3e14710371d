------------------------------ MODULE JobsGen -------------------------------
(* All placements of faults over a few jobs, and how many may run at once   *)
(* (0: serial).                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLE done
F0 == {"none", "run", "final", "both"}
F1 == F0 \cup {"init", "other"}
Serial == UNION {[1..n -> F0] : n \in 1..3}
Par == UNION {[1..n -> F1] : n \in 1..3}
Cases == {[cap |-> 0, f |-> f] : f \in Serial}
         \cup {[cap |-> c, f |-> f] : c \in 1..3, f \in Par}
         \cup {[cap |-> c, f |-> f] : c \in {1, 2}, f \in [1..5 -> {"none", "run"}]}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.GEN_OUT, SetToSeq(Cases))
Spec == Init /\ [][Next]_done
=============================================================================
