-------------------------------- MODULE Run ---------------------------------
(* The state machine over the transition functions of RunOps: crashes fall  *)
(* between any two steps of construction, update and resumption.            *)
EXTENDS RunOps

(* ------------------------------ the machine ------------------------------ *)
CONSTANTS Dts, Switch, Saves, Cks, MaxIt, MaxCrash

VARIABLES cf,      \* configuration
          pc,     \* where the process is
          m,      \* memory and disk
          crashes,
          best,   \* ghost: timestep of the latest completed checkpoint
          got     \* ghost: number of records completed so far

vars == <<cf, pc, m, crashes, best, got>>

Configs == [dt : Dts, dt2 : Dts, sw : Switch, save : Saves, ck : Cks, ckOn : BOOLEAN, nc : BOOLEAN]
MaxDt == IF cf.dt > cf.dt2 THEN cf.dt ELSE cf.dt2

Init == /\ cf \in Configs
        /\ pc = "new" /\ m = Blank /\ crashes = 0 /\ best = -1 /\ got = 0

Construct == /\ pc = "new"
             /\ m' = Boot(cf) /\ pc' = "idle"
             /\ best' = (IF cf.ckOn THEN 0 ELSE -1)
             /\ got' = Len(m'.recs)
             /\ UNCHANGED <<cf, crashes>>

DoSolve   == pc = "idle" /\ m.it < MaxIt /\ m' = Solve(cf, m) /\ pc' = "solved"
             /\ UNCHANGED <<cf, crashes, best, got>>
DoAdvance == pc = "solved" /\ m' = Advance(cf, m) /\ pc' = "advanced"
             /\ UNCHANGED <<cf, crashes, best, got>>
DoOutData == pc = "advanced" /\ m' = OutData(cf, m) /\ pc' = "output"
             /\ got' = (IF Len(m'.recs) > got THEN Len(m'.recs) ELSE got)
             /\ UNCHANGED <<cf, crashes, best>>
\* the checkpoint is first written aside and then put in place
BeginCk   == pc = "output" /\ DueCk(cf, m) /\ pc' = "writing"
             /\ UNCHANGED <<cf, m, crashes, best, got>>
EndCk     == pc = "writing" /\ m' = OutCk(cf, m) /\ pc' = "idle"
             /\ best' = m.it /\ UNCHANGED <<cf, crashes, got>>
NoCkDue   == pc = "output" /\ ~DueCk(cf, m) /\ pc' = "idle"
             /\ UNCHANGED <<cf, m, crashes, best, got>>

\* memory is lost, the disk is not
Die == /\ pc \notin {"new", "dead"} /\ crashes < MaxCrash
       /\ pc' = "dead" /\ crashes' = crashes + 1
       /\ m' = [Blank EXCEPT !.recs = m.recs, !.ckpt = m.ckpt]
       /\ UNCHANGED <<cf, best, got>>
Read    == pc = "dead" /\ m.ckpt.has /\ m' = Load(cf, m) /\ pc' = "read"
           /\ UNCHANGED <<cf, crashes, best, got>>
Copy    == pc = "read" /\ cf.nc /\ pc' = "copied" /\ UNCHANGED <<cf, m, crashes, best, got>>
Replace == pc \in {"copied"} /\ pc' = "idle" /\ UNCHANGED <<cf, m, crashes, best, got>>
NoCopy  == pc = "read" /\ ~cf.nc /\ pc' = "idle" /\ UNCHANGED <<cf, m, crashes, best, got>>

Next == Construct \/ DoSolve \/ DoAdvance \/ DoOutData \/ BeginCk \/ EndCk
        \/ NoCkDue \/ Die \/ Read \/ Copy \/ Replace \/ NoCopy

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------- *)
\* C01: wherever the run stands, it stands where the uninterrupted run does
SameAsUninterrupted ==
    pc = "idle" => Core(m) = Core(Ref(cf, m.it))
\* C01/C02: the records on disk are those of the uninterrupted run
RecordsOfReference ==
    (cf.nc /\ pc # "new") =>
        LET full == Ref(cf, MaxIt).recs IN
        /\ Len(m.recs) <= Len(full)
        /\ \A i \in 1..Len(m.recs) : m.recs[i] = full[i]
\* C02: one record at the start, then whenever the interval has elapsed
Schedule ==
    (cf.nc /\ pc # "new") =>
        /\ Len(m.recs) >= 1 /\ m.recs[1].t = 0
        /\ \A i \in 2..Len(m.recs) :
              LET gap == m.recs[i].t - m.recs[i-1].t IN
              gap >= cf.save /\ (gap - MaxDt < cf.save)
\* C03: nothing completed is lost, and it can be resumed from
NothingLost ==
    /\ (best >= 0) => m.ckpt.has /\ m.ckpt.it = best
    /\ (cf.nc /\ pc # "new") => Len(m.recs) >= got
    /\ m.ckpt.has => /\ Snapshot(Ref(cf, m.ckpt.it)) = m.ckpt
                     /\ cf.nc => m.ckpt.si <= Len(m.recs)
\* C03: never more progress at risk than one checkpoint interval and a step
BoundedLoss ==
    (cf.ckOn /\ pc = "idle") => m.t - m.ckpt.t < cf.ck + MaxDt
NoCheckpointWhenOff == ~cf.ckOn => ~m.ckpt.has
=============================================================================
