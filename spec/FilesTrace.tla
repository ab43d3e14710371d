----------------------------- MODULE FilesTrace -----------------------------
(* Recorded histories of runs and of sets of jobs into the same folders.    *)
EXTENDS FilesOps, TraceLib
VARIABLES l, bad, f, r
vars == <<l, bad, f, r>>
TInit == l = 1 /\ bad = {} /\ f = Empty /\ r = NoRoot
Seen(g, b) == [g EXCEPT !.nc = b.nc, !.recs = b.recs, !.ck = b.ck]
Clauses(g, o, e) ==
    {<<"C17:outcome", e.out = Outcome(g, o)>>,
     <<"C17:refused-leaves-everything", Outcome(g, o) = "ok" \/ (e.ncSame /\ e.ckSame)>>,
     <<"C17:nothing-before-deferred-output-starts", o.defer = "no" \/ e.mid>>,
     <<"C17:no-output-no-file", Writes(g, o) \/ e.ncSame>>,
     <<"C17:no-checkpoint-unless-asked", WritesCk(g, o) \/ e.ckSame>>,
     <<"C17:output-file-there", e.after.nc = HasFile(g, o) /\ e.readable>>,
     <<"C17:records-kept", /\ Len(e.after.recs) >= Kept(g, o)
                           /\ \A i \in 1..Kept(g, o) : e.after.recs[i] = g.recs[i]>>,
     <<"C17:records-added", Len(e.after.recs) = Count(g, o)>>,
     <<"C17:replaced-file-holds-own-records-only",
         (Acts(g, o) /\ o.saves /\ ~o.resume) => (e.fresh /\ e.own)>>,
     <<"C17:replacement-announced", e.warnReplace <=> Replaces(g, o)>>,
     <<"C17:new-file-on-resume-announced", e.warnMissing <=> Missing(g, o)>>,
     <<"C17:checkpoint", e.after.ck = (g.ck \/ WritesCk(g, o)) /\ (e.after.ck => e.after.it = CkIt(g, o))>>,
     <<"C17:other-files-untouched", e.others>>}
JClauses(q, o, e) ==
    LET out == RootOutcome(q, o)
        was(j) == IF q.jobs = <<>> THEN Empty ELSE q.jobs[j] IN
    {<<"C17:jobs-outcome", e.out = out>>,
     <<"C17:refused-jobs-leave-everything", out = "ok" \/ e.treeSame>>,
     <<"C17:other-files-untouched", e.others>>,
     <<"C17:jobs-records-kept", \A j \in 1..Len(q.jobs) :
          /\ Len(e.jobs) >= j /\ Len(e.jobs[j].recs) >= Len(q.jobs[j].recs)
          /\ \A i \in 1..Len(q.jobs[j].recs) : e.jobs[j].recs[i] = q.jobs[j].recs[i]>>,
     <<"C17:jobs-records-added", out = "refused" \/
          (Len(e.jobs) = e.n /\ \A j \in 1..Len(e.jobs) : Len(e.jobs[j].recs) = Count(was(j), JobRun(o)))>>,
     <<"C17:jobs-checkpoint", out = "refused" \/ \A j \in 1..Len(e.jobs) : e.jobs[j].ck /\ e.jobs[j].it = CkIt(was(j), JobRun(o))>>}
NoRec(i) == ""
Put(S) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in S}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> f' = Empty /\ r' = NoRoot /\ UNCHANGED bad
          [] e.ev = "run" -> /\ f' = Seen(After(f, e.o, NoRec), e.after)
                             /\ Put(Fails(Clauses(f, e.o, e))) /\ UNCHANGED r
          [] e.ev = "drop" -> f' = [f EXCEPT !.nc = FALSE, !.recs = <<>>] /\ UNCHANGED <<r, bad>>
          [] e.ev = "foreign" -> f' = [f EXCEPT !.nc = TRUE, !.recs = <<>>] /\ UNCHANGED <<r, bad>>
          [] e.ev = "mkdir" -> r' = [r EXCEPT !.dir = TRUE] /\ UNCHANGED <<f, bad>>
          [] e.ev = "mkfile" -> r' = [r EXCEPT !.other = TRUE] /\ UNCHANGED <<f, bad>>
          [] e.ev = "jobs" ->
               /\ Put(Fails(JClauses(r, e.o, e))) /\ UNCHANGED f
               /\ r' = IF RootOutcome(r, e.o) = "ok" THEN
                         [r EXCEPT !.dir = TRUE, !.jobs = [j \in 1..Len(e.jobs) |->
                            Seen(After(IF j > Len(r.jobs) THEN Empty ELSE r.jobs[j], JobRun(e.o), NoRec), e.jobs[j])]]
                       ELSE r
          [] e.ev = "error" -> Put({"no-failure:" \o e.exc}) /\ UNCHANGED <<f, r>>
          [] OTHER -> Put({"unknown-event"}) /\ UNCHANGED <<f, r>>
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<bad, f, r>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
