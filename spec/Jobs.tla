-------------------------------- MODULE Jobs --------------------------------
(* The scheduler of parallel jobs: a semaphore bounds how many run, every   *)
(* job is a process which sends messages through one bounded pipe, and a    *)
(* process only ends once everything it sent has gone into the pipe. The    *)
(* parent starts the jobs, reads the pipe until all have ended, and reports.*)
(* Serial is the same with everything in one process (Cap = 0).             *)
EXTENDS JobsOps, TLC
CONSTANTS NJobs, Cap, QCap, Faults, ReadFirst
J == 1..NJobs
VARIABLES fault, pc, sema, job, buf, pipe, rep, next
vars == <<fault, pc, sema, job, buf, pipe, rep, next>>
(* job[j]: "new" "running" "sent1" "sent2" "released" "ended";  buf: local messages *)
Init == /\ fault \in [J -> Faults]
        /\ pc = "start" /\ sema = (IF Cap = 0 THEN 1 ELSE Cap) /\ next = 1
        /\ job = [j \in J |-> "new"] /\ buf = [j \in J |-> <<>>]
        /\ pipe = <<>> /\ rep = [j \in J |-> {}]

\* ---------------- parent
Acquire == /\ pc = "start" /\ next <= NJobs /\ sema > 0
           /\ sema' = sema - 1 /\ job' = [job EXCEPT ![next] = "running"] /\ next' = next + 1
           /\ UNCHANGED <<fault, pc, buf, pipe, rep>>
AllStarted == /\ pc = "start" /\ next > NJobs /\ pc' = (IF ReadFirst THEN "read" ELSE "join")
              /\ UNCHANGED <<fault, sema, job, buf, pipe, rep, next>>
Read == /\ pc \in {"read", "drain"} /\ pipe # <<>>
        /\ LET m == Head(pipe) IN rep' = [rep EXCEPT ![m[1]] = @ \cup {m[2]}]
        /\ pipe' = Tail(pipe) /\ UNCHANGED <<fault, pc, sema, job, buf, next>>
ReadDone == /\ pc = "read" /\ \A j \in J : job[j] = "ended" /\ pc' = "join"
            /\ UNCHANGED <<fault, sema, job, buf, pipe, rep, next>>
Join == /\ pc = "join" /\ \A j \in J : job[j] = "ended" /\ pc' = "drain"
        /\ UNCHANGED <<fault, sema, job, buf, pipe, rep, next>>
Drained == /\ pc = "drain" /\ pipe = <<>> /\ pc' = "done"
           /\ UNCHANGED <<fault, sema, job, buf, pipe, rep, next>>

\* ---------------- job
Send(j, m) == buf' = [buf EXCEPT ![j] = Append(@, <<j, m>>)]
RunIt(j) == /\ job[j] = "running" /\ job' = [job EXCEPT ![j] = "sent1"]
            /\ Send(j, Messages(fault[j])[1]) /\ UNCHANGED <<fault, pc, sema, pipe, rep, next>>
Finish(j) == /\ job[j] = "sent1" /\ job' = [job EXCEPT ![j] = "sent2"]
             /\ Send(j, Messages(fault[j])[2]) /\ UNCHANGED <<fault, pc, sema, pipe, rep, next>>
Release(j) == /\ job[j] = "sent2" /\ job' = [job EXCEPT ![j] = "released"] /\ sema' = sema + 1
              /\ UNCHANGED <<fault, pc, buf, pipe, rep, next>>
Flush(j) == /\ buf[j] # <<>> /\ Len(pipe) < QCap
            /\ pipe' = Append(pipe, Head(buf[j])) /\ buf' = [buf EXCEPT ![j] = Tail(@)]
            /\ UNCHANGED <<fault, pc, sema, job, rep, next>>
Exit(j) == /\ job[j] = "released" /\ buf[j] = <<>> /\ job' = [job EXCEPT ![j] = "ended"]
           /\ UNCHANGED <<fault, pc, sema, buf, pipe, rep, next>>

Parent == Acquire \/ AllStarted \/ Read \/ ReadDone \/ Join \/ Drained
Next == Parent \/ \E j \in J : RunIt(j) \/ Finish(j) \/ Release(j) \/ Flush(j) \/ Exit(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Parent)
        /\ \A j \in J : /\ WF_vars(RunIt(j)) /\ WF_vars(Finish(j)) /\ WF_vars(Release(j))
                        /\ WF_vars(Flush(j)) /\ WF_vars(Exit(j))

Active == {j \in J : job[j] \in {"running", "sent1", "sent2"}}
Bounded == Cardinality(Active) <= (IF Cap = 0 THEN 1 ELSE Cap)
AllReported == pc = "done" =>
    \A j \in J : /\ job[j] = "ended"
                 /\ rep[j] = {Messages(fault[j])[1], Messages(fault[j])[2]}
                 /\ (<<1, TRUE>> \in rep[j]) = ReportedDone(fault[j])
                 /\ (\E s \in 1..2 : <<s, FALSE>> \in rep[j]) = ReportedFailed(fault[j])
Terminates == <>(pc = "done")
=============================================================================
