------------------------------- MODULE Expand -------------------------------
(* Expansion job by job (an odometer over the lists of the matrix) yields   *)
(* every combination exactly as often as promised; and the shapes of inputs *)
(* for replay into the implementation.                                      *)
EXTENDS ExpandOps, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxDims, MaxLen, MaxEns
VARIABLES inp, n, jobs
vars == <<inp, n, jobs>>

K == <<"a", "b", "c">>
Tok(i, j) == K[i] \o ToString(j)
MatOf(lens) == [i \in 1..Len(lens) |->
                  [k |-> K[i], colon |-> FALSE, vals |-> [j \in 1..lens[i] |-> Tok(i, j)]]]
Lens == UNION {[1..d -> 1..MaxLen] : d \in 1..MaxDims}
SetsOf(m, d) == [i \in 1..m |-> [j \in 1..d |-> [k |-> K[j], v |-> Tok(j, i), colon |-> FALSE]]]
Inputs ==
    {[hasMat |-> TRUE, hasSet |-> FALSE, mat |-> MatOf(x), sets |-> <<>>, ens |-> e,
      ensInt |-> TRUE, fixed |-> <<>>, out |-> TRUE] : x \in Lens, e \in {-1} \cup 1..MaxEns}
    \cup {[hasMat |-> FALSE, hasSet |-> TRUE, mat |-> <<>>, sets |-> SetsOf(m, d), ens |-> e,
      ensInt |-> TRUE, fixed |-> <<>>, out |-> TRUE] : m \in 1..MaxLen, d \in 1..MaxDims, e \in {-1} \cup 1..MaxEns}
    \cup {[hasMat |-> FALSE, hasSet |-> FALSE, mat |-> <<>>, sets |-> <<>>, ens |-> e,
      ensInt |-> TRUE, fixed |-> <<>>, out |-> TRUE] : e \in {-1} \cup 1..MaxEns}

Init == inp \in Inputs /\ n = 0 /\ jobs = <<>>
\* digit i of job number x, last list fastest, seeds (replicas) fastest of all
RECURSIVE Digit(_, _, _)
Digit(lens, i, x) ==
    IF i = Len(lens) THEN (x % lens[i]) + 1
    ELSE LET rest == Prod([j \in 1..(Len(lens) - i) |-> [vals |-> [q \in 1..lens[i + j] |-> 0]]], 1)
         IN ((x \div rest) % lens[i]) + 1
Job(x) ==
    LET r == Replicas(inp)
        y == x \div r IN
    [seed |-> x % r,
     a |-> IF inp.hasMat
           THEN Assign(inp.mat, [i \in 1..Len(inp.mat) |->
                    Digit([q \in 1..Len(inp.mat) |-> Len(inp.mat[q].vals)], i, y)])
           ELSE IF inp.hasSet THEN SetAssign(inp.sets[y + 1])
           ELSE [k \in {} |-> ""]]
Next == n < NumJobs(inp) /\ jobs' = Append(jobs, Job(n)) /\ n' = n + 1 /\ UNCHANGED inp
Spec == Init /\ [][Next]_vars

AllValid == Valid(inp)
Complete == n = NumJobs(inp) =>
    /\ \A a \in Combos(inp) :
          Cardinality({i \in 1..n : jobs[i].a = a}) = CountOf(inp, a)
    /\ \A i \in 1..n : jobs[i].a \in Combos(inp)
    /\ \A i, j \in 1..n : (i # j /\ jobs[i].a = jobs[j].a) => jobs[i].seed # jobs[j].seed
Distinct == \A i, j \in 1..n : i # j => jobs[i] # jobs[j]
=============================================================================
