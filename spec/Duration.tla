------------------------------ MODULE Duration ------------------------------
(* The run loop as a machine, over all combinations of what the file and    *)
(* the command line (or keywords) may give.                                 *)
EXTENDS DurationOps, Json, IOUtils, SequencesExt, TLC
CONSTANTS Dts, Tss, Secs, Yrs, Ifs
VARIABLES file, over, dt, n0, n, pc
vars == <<file, over, dt, n0, n, pc>>
Specs == [ts : Tss \cup {-1}, sec : Secs \cup {-1}, yr : Yrs \cup {-1}, If8 : Ifs \cup {-1}]
Init == /\ file \in Specs /\ over \in Specs /\ dt \in Dts /\ n0 \in {0, 2}
        /\ n = n0 /\ pc = "start"
E == Effective(file, over)
Start == pc = "start" /\ pc' = (IF Refused(E) THEN "refused" ELSE "running")
         /\ UNCHANGED <<file, over, dt, n0, n>>
Step  == pc = "running" /\ ~Ended(E, dt, n - n0) /\ n' = n + 1
         /\ UNCHANGED <<file, over, dt, n0, pc>>
Stop  == pc = "running" /\ Ended(E, dt, n - n0) /\ pc' = "done"
         /\ UNCHANGED <<file, over, dt, n0, n>>
Next == Start \/ Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RefusedNeverRuns == pc = "refused" => n = n0
Exact == pc = "done" =>
    LET k == n - n0 IN
    IF Kind(E) = "ts" THEN k = E.ts
    ELSE k * dt >= Length(E) /\ (k > 0 => (k - 1) * dt < Length(E))
OverrideWins == (pc = "done" /\ Given(over)) =>
    n - n0 = Steps([over EXCEPT !.If8 = E.If8], dt)
Halts == <>(pc \in {"refused", "done"})
=============================================================================
