------------------------------ MODULE FilesOps ------------------------------
(* What runs do to what is already in a folder.                             *)
(* f: folder [nc, recs, ck, it, si]: an output file is there, its records;  *)
(*    a checkpoint is there, its timestep and how many records it counts    *)
(* o: a run [saves, clobber, resume, defer, ckpt, steps]; defer: "no",      *)
(*    "then" (output is deferred, then started) or "never"                  *)
(* r: a folder of jobs [dir, other, jobs]: it exists as a folder, as        *)
(*    something else; its jobs are folders f                                *)
EXTENDS Integers, Sequences
Empty == [nc |-> FALSE, recs |-> <<>>, ck |-> FALSE, it |-> 0, si |-> 0]
Mn2(a, b) == IF a < b THEN a ELSE b
Mx2(a, b) == IF a > b THEN a ELSE b
(* every timestep is a record and a checkpoint *)
Outcome(f, o) ==
    CASE o.resume /\ ~f.ck -> "nockpt"
      [] o.defer = "never" -> "ok"
      [] ~o.resume /\ o.saves /\ f.nc /\ ~o.clobber -> "refused"
      [] OTHER -> "ok"
Acts(f, o) == Outcome(f, o) = "ok" /\ o.defer # "never"
\* records that stay as they are, records afterwards, and announcements
Kept(f, o) == IF Acts(f, o) /\ o.saves
              THEN (IF ~o.resume THEN 0 ELSE IF o.steps = 0 THEN Len(f.recs) ELSE Mn2(Len(f.recs), f.si))
              ELSE Len(f.recs)
From(f, o) == IF o.resume /\ f.nc THEN f.si ELSE 0          \* records before the first new one
News(f, o) == IF o.resume THEN o.steps ELSE o.steps + 1
Count(f, o) == IF Acts(f, o) /\ o.saves
               THEN (IF ~o.resume THEN o.steps + 1
                     ELSE IF o.steps = 0 THEN Len(f.recs)
                     ELSE Mx2(Len(f.recs), From(f, o) + o.steps))
               ELSE Len(f.recs)
Replaces(f, o) == Acts(f, o) /\ o.saves /\ ~o.resume /\ f.nc
Missing(f, o) == Acts(f, o) /\ o.saves /\ o.resume /\ ~f.nc
HasFile(f, o) == f.nc \/ (Acts(f, o) /\ o.saves)
Writes(f, o) == Acts(f, o) /\ o.saves                 \* the output file may change at all
WritesCk(f, o) == Acts(f, o) /\ o.ckpt /\ (~o.resume \/ o.steps > 0)
CkIt(f, o) == IF WritesCk(f, o) THEN (IF o.resume THEN f.it ELSE 0) + o.steps ELSE f.it
CkSi(f, o) == IF ~WritesCk(f, o) THEN f.si
              ELSE IF ~o.resume THEN o.steps + 1
              ELSE (IF Missing(f, o) THEN 0 ELSE f.si) + o.steps
\* the folder afterwards, when the run writes the records given by New(i)
After(f, o, New(_)) ==
    [nc |-> HasFile(f, o),
     recs |-> [i \in 1..Count(f, o) |->
                 IF ~Writes(f, o) \/ i <= Kept(f, o) THEN f.recs[i]
                 ELSE IF i > From(f, o) /\ i <= From(f, o) + News(f, o) THEN New(i)
                 ELSE IF i <= Len(f.recs) /\ o.resume THEN f.recs[i] ELSE New(0)],
     ck |-> f.ck \/ WritesCk(f, o), it |-> CkIt(f, o), si |-> CkSi(f, o)]
(* jobs: o [resume, steps] *)
NoRoot == [dir |-> FALSE, other |-> FALSE, jobs |-> <<>>]
JobRun(o) == [saves |-> TRUE, clobber |-> FALSE, resume |-> o.resume, defer |-> "no", ckpt |-> TRUE, steps |-> o.steps]
RootOutcome(r, o) == IF (r.dir /\ ~o.resume) \/ r.other THEN "refused" ELSE "ok"
=============================================================================
