------------------------------ MODULE FilesGen ------------------------------
(* Histories of Files, printed for replay (TLC simulation mode).            *)
EXTENDS Files, Json, Randomization
CONSTANT Depth
\* one successor of each kind of step, so that all kinds are frequent
Pick(x) == RandomElement([saves : {TRUE, TRUE, FALSE}, clobber : BOOLEAN, resume : {FALSE}, defer : {"no", "then"},
                          ckpt : BOOLEAN, steps : 0..MaxSteps])
Some(o) == /\ f' = After(f, o, Id) /\ ok' = ok
           /\ hist' = Append(hist, [op |-> "run", o |-> o]) /\ UNCHANGED r
SomeJobs(res) == LET o == [resume |-> res, steps |-> RandomElement(1..MaxSteps), parallel |-> RandomElement(BOOLEAN)] IN
    /\ res => r.jobs # <<>>
    /\ hist' = Append(hist, [op |-> "jobs", o |-> o]) /\ UNCHANGED <<f, ok>>
    /\ r' = IF RootOutcome(r, o) = "ok"
            THEN [r EXCEPT !.dir = TRUE, !.jobs = [j \in 1..Njobs |->
                    After(IF r.jobs = <<>> THEN Empty ELSE r.jobs[j], JobRun(o), Id)]]
            ELSE r
GNext == LET k == RandomElement(1..20) IN
    CASE k <= 7 -> Some([Pick(1) EXCEPT !.saves = RandomElement(1..3) > 1, !.ckpt = RandomElement(1..3) > 1])
      [] k <= 12 -> Some([Pick(2) EXCEPT !.resume = f.ck \/ k = 8, !.saves = RandomElement(1..4) > 1])
      [] k = 13 -> Some([Pick(3) EXCEPT !.defer = "never", !.resume = f.ck])
      [] k = 14 -> (IF f.nc /\ f.ck THEN Drop ELSE Some([Pick(4) EXCEPT !.saves = TRUE]))
      [] k <= 17 -> SomeJobs(FALSE)
      [] k <= 19 -> SomeJobs(r.jobs # <<>>)
      [] OTHER -> (IF r = NoRoot THEN Make ELSE SomeJobs(r.jobs # <<>>))
GSpec == Init /\ [][GNext]_vars
Emit == (TLCGet("level") = Depth) => PrintT("SCN " \o ToJson([h |-> hist]))
=============================================================================
