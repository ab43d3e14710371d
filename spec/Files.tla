------------------------------- MODULE Files --------------------------------
(* All histories of runs into one folder and of sets of jobs into another.  *)
EXTENDS FilesOps, FiniteSets, TLC
CONSTANTS MaxOps, MaxSteps, Njobs
VARIABLES f, r, hist, ok
vars == <<f, r, hist, ok>>
Runs == [saves : BOOLEAN, clobber : BOOLEAN, resume : BOOLEAN, defer : {"no", "then", "never"}, ckpt : BOOLEAN, steps : 0..MaxSteps]
Init == f = Empty /\ r = NoRoot /\ hist = <<>> /\ ok = TRUE
Id(i) == <<Len(hist) + 1, i>>
\* what a step may not do to a folder
Guards(a, b, o) ==
    /\ (Outcome(a, o) # "ok" \/ o.defer = "never") => b = a
    /\ ~o.saves => b.nc = a.nc /\ b.recs = a.recs
    /\ (a.nc /\ ~(o.clobber /\ ~o.resume)) =>
            /\ b.nc /\ Len(b.recs) >= Len(a.recs)
            /\ \A i \in 1..Len(a.recs) : b.recs[i] = a.recs[i] \/ (o.resume /\ i > a.si)
    /\ Replaces(a, o) => \A i \in 1..Len(b.recs) : b.recs[i][1] = Len(hist) + 1
Run == \E o \in Runs :
    LET g == After(f, o, Id) IN
    /\ f' = g /\ ok' = (ok /\ Guards(f, g, o))
    /\ hist' = Append(hist, [op |-> "run", o |-> o]) /\ UNCHANGED r
\* the user removes the output file, but not the checkpoint
Drop == /\ f.nc /\ f' = [f EXCEPT !.nc = FALSE, !.recs = <<>>]
        /\ hist' = Append(hist, [op |-> "drop", o |-> [steps |-> 0]]) /\ UNCHANGED <<r, ok>>
\* something else lies under the name of the output file
Foreign == /\ ~f.nc /\ ~f.ck /\ f' = [f EXCEPT !.nc = TRUE]
           /\ hist' = Append(hist, [op |-> "foreign", o |-> [steps |-> 0]]) /\ UNCHANGED <<r, ok>>
Jobs == \E o \in [resume : BOOLEAN, steps : 1..MaxSteps, parallel : BOOLEAN] :
    /\ o.resume => r.jobs # <<>>          \* resuming what was never run is an error
    /\ hist' = Append(hist, [op |-> "jobs", o |-> o]) /\ UNCHANGED f
    /\ IF RootOutcome(r, o) = "ok"
       THEN r' = [r EXCEPT !.dir = TRUE,
                    !.jobs = [j \in 1..Njobs |-> After(IF r.jobs = <<>> THEN Empty ELSE r.jobs[j], JobRun(o), Id)]]
       ELSE r' = r
    /\ ok' = (ok /\ (r.jobs # <<>> => \A j \in 1..Njobs : Guards(r.jobs[j], r'.jobs[j], JobRun(o))))
Make == /\ r = NoRoot /\ \E b \in BOOLEAN : r' = [r EXCEPT !.dir = b, !.other = ~b]
        /\ hist' = Append(hist, [op |-> IF r'.dir THEN "mkdir" ELSE "mkfile", o |-> [steps |-> 0]]) /\ UNCHANGED <<f, ok>>
Next == Len(hist) < MaxOps /\ (Run \/ Drop \/ Foreign \/ Jobs \/ Make)
Spec == Init /\ [][Next]_vars
View == <<f, r, ok, Len(hist)>>
Safe == ok
\* no record is a hole unless a checkpoint counts records that are not there
NoHoles == \A i \in 1..Len(f.recs) : f.recs[i][2] = 0 => f.ck
OnlyOwn == r.jobs # <<>> => \A j \in 1..Njobs : r.jobs[j].nc /\ Len(r.jobs[j].recs) = r.jobs[j].it + 1
=============================================================================
