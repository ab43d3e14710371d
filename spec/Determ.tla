------------------------------ MODULE Determ --------------------------------
(* Jobs sharing a process (serial) or having a process each (parallel), in  *)
(* any order, with other users of the generator in between.                 *)
EXTENDS DetermOps, FiniteSets, TLC
CONSTANTS Seeds, NJobs, Steps, Parallel, Restore
Jobs == 1..NJobs
VARIABLES seed, g, own, proc, hist, pc
vars == <<seed, g, own, proc, hist, pc>>
Init == /\ seed \in [Jobs -> Seeds]
        /\ g = Foreign /\ own = [j \in Jobs |-> Foreign]
        /\ proc = [j \in Jobs |-> Foreign]
        /\ hist = [j \in Jobs |-> <<>>] /\ pc = [j \in Jobs |-> "new"]
\* constructing the model of a job sets the generator of the process
Construct(j) ==
    /\ pc[j] = "new" /\ (Parallel \/ \A k \in Jobs : pc[k] # "running")
    /\ g' = FromSeed(seed[j]) /\ own' = [own EXCEPT ![j] = FromSeed(seed[j])]
    /\ pc' = [pc EXCEPT ![j] = "ready"] /\ UNCHANGED <<seed, proc, hist>>
\* a serial job runs from its own state; a parallel one in a fork of the process
Start(j) ==
    /\ pc[j] = "ready"
    /\ Parallel \/ \A k \in Jobs : pc[k] # "running"
    /\ pc' = [pc EXCEPT ![j] = "running"]
    /\ IF Parallel
       THEN proc' = [proc EXCEPT ![j] = IF Restore THEN own[j] ELSE g] /\ g' = g
       ELSE proc' = proc /\ g' = (IF Restore THEN own[j] ELSE g)
    /\ UNCHANGED <<seed, own, hist>>
Update(j) ==
    /\ pc[j] = "running" /\ Len(hist[j]) < Steps
    /\ LET from == IF Parallel THEN proc[j] ELSE g IN
         /\ hist' = [hist EXCEPT ![j] = Append(@, from)]
         /\ IF Parallel THEN proc' = [proc EXCEPT ![j] = Draw(from)] /\ g' = g
            ELSE g' = Draw(from) /\ proc' = proc
    /\ UNCHANGED <<seed, own, pc>>
End(j) == /\ pc[j] = "running" /\ Len(hist[j]) = Steps /\ pc' = [pc EXCEPT ![j] = "done"]
          /\ UNCHANGED <<seed, g, own, proc, hist>>
\* somebody else uses the generator of the process between jobs
Noise == /\ \A k \in Jobs : pc[k] # "running" \/ Parallel
         /\ g' = Foreign /\ g # Foreign /\ UNCHANGED <<seed, own, proc, hist, pc>>
Next == Noise \/ \E j \in Jobs : Construct(j) \/ Start(j) \/ Update(j) \/ End(j)
Spec == Init /\ [][Next]_vars
FunctionOfSeed == \A j \in Jobs : hist[j] = Expected(seed[j], Len(hist[j]))
SameSeedSameResult == \A i, j \in Jobs : seed[i] = seed[j] => Prefix(hist[i], hist[j])
=============================================================================
