----------------------------- MODULE ExpandOps ------------------------------
(* Which jobs an input expands to. An input has                             *)
(*   mat    sequence of [k, vals, colon]   (empty: no matrix)               *)
(*   hasMat, hasSet                                                         *)
(*   sets   sequence of sequences of [k, v, colon]                          *)
(*   ens    number of replicas, -1 if not given; ensInt: it is an integer   *)
(*   fixed  sequence of [k, v]; out: an output folder is given              *)
(* Values are tokens "type:value"; the token "list" is a nested list.       *)
EXTENDS Integers, Sequences, FiniteSets

Keys(s) == {s[i].k : i \in 1..Len(s)}

Multi(inp) == inp.hasMat \/ inp.hasSet \/ inp.ens # -1 \/ ~inp.ensInt
Replicas(inp) == IF inp.ens > 1 THEN inp.ens ELSE 1

Valid(inp) ==
    /\ ~(inp.hasMat /\ inp.hasSet)
    /\ inp.ensInt
    /\ Multi(inp) => (inp.out \/ (inp.ens = 1 /\ ~inp.hasMat /\ ~inp.hasSet))
    /\ inp.hasMat =>
         /\ "out_dir" \notin Keys(inp.mat)
         /\ \A i \in 1..Len(inp.mat) :
              /\ ~inp.mat[i].colon
              /\ inp.mat[i].k \notin Keys(inp.fixed)
              /\ \A j \in 1..Len(inp.mat[i].vals) : inp.mat[i].vals[j] # "list"
         /\ Replicas(inp) > 1 => "seed" \notin Keys(inp.mat)
    /\ (Replicas(inp) > 1 /\ ~inp.hasSet) => "seed" \notin Keys(inp.fixed)
    /\ inp.hasSet =>
         /\ \A i \in 1..Len(inp.sets) : Keys(inp.sets[i]) = Keys(inp.sets[1])
         /\ \A i \in 1..Len(inp.sets) : "out_dir" \notin Keys(inp.sets[i])
         /\ \A i \in 1..Len(inp.sets) : \A j \in 1..Len(inp.sets[i]) : ~inp.sets[i][j].colon

\* the folders of the jobs are their own only if this is an expansion
Expanded(inp) == inp.hasMat \/ inp.hasSet \/ Replicas(inp) > 1

(* ------------------- the combinations of varied values ------------------- *)
\* all index vectors of a matrix, and the assignment (a function) each means
Index(mat) == {f \in [1..Len(mat) -> 1..9] :
                 \A i \in 1..Len(mat) : f[i] <= Len(mat[i].vals)}
Assign(mat, f) == [k \in Keys(mat) |->
                     LET i == CHOOSE i \in 1..Len(mat) : mat[i].k = k IN mat[i].vals[f[i]]]
SetAssign(s) == [k \in Keys(s) |-> LET i == CHOOSE i \in 1..Len(s) : s[i].k = k IN s[i].v]

VariedKeys(inp) ==
    (IF inp.hasMat THEN Keys(inp.mat) ELSE IF inp.hasSet THEN Keys(inp.sets[1]) ELSE {})
       \ (IF Replicas(inp) > 1 THEN {"seed"} ELSE {})

Combos(inp) ==    \* as a set; how often each occurs is CountOf
    IF inp.hasMat THEN {Assign(inp.mat, f) : f \in Index(inp.mat)}
    ELSE IF inp.hasSet THEN {[k \in VariedKeys(inp) |-> SetAssign(inp.sets[i])[k]] : i \in 1..Len(inp.sets)}
    ELSE {[k \in {} |-> ""]}
CountOf(inp, a) ==
    Replicas(inp) *
    (IF inp.hasMat THEN Cardinality({f \in Index(inp.mat) : Assign(inp.mat, f) = a})
     ELSE IF inp.hasSet
     THEN Cardinality({i \in 1..Len(inp.sets) : [k \in VariedKeys(inp) |-> SetAssign(inp.sets[i])[k]] = a})
     ELSE 1)

RECURSIVE Prod(_, _)
Prod(mat, i) == IF i > Len(mat) THEN 1 ELSE Len(mat[i].vals) * Prod(mat, i + 1)
NumJobs(inp) == Replicas(inp) *
    (IF inp.hasMat THEN Prod(inp.mat, 1) ELSE IF inp.hasSet THEN Len(inp.sets) ELSE 1)
=============================================================================
