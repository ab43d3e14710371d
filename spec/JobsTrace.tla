----------------------------- MODULE JobsTrace ------------------------------
(* Recorded schedules of real jobs. The recorder writes one line when a job *)
(* enters its first timestep, after each timestep, when a planned fault is  *)
(* raised and when it is finalized; then what was reported.                 *)
EXTENDS JobsOps, TraceLib
VARIABLES l, cf, js, bad
TInit == l = 1 /\ cf = [n |-> 0, cap |-> 0, want |-> 0, f |-> <<>>] /\ js = <<>> /\ bad = {}

Limit == IF cf.cap = 0 THEN 1 ELSE cf.cap
Known(j) == j \in 1..Len(js)
Upd(j, r) == IF Known(j) THEN [js EXCEPT ![j] = r] ELSE js

Step(e) ==
  CASE e.ev = "begin" ->
         [cf |-> e.cfg, js |-> [j \in 1..e.cfg.n |-> Fresh], cl |-> {}]
    [] e.ev = "start" ->
         [cf |-> cf,
          js |-> Upd(e.job, IF Known(e.job)
                            THEN [js[e.job] EXCEPT !.st = "running", !.starts = @ + 1] ELSE Fresh),
          cl |-> {<<"C06:starts-a-job-of-the-input", Known(e.job)>>,
                  <<"C06:started-once", Known(e.job) => js[e.job].st = "new">>,
                  <<"C06:not-more-at-a-time-than-asked-for",
                    Cardinality(Running(js)) + 1 <= Limit>>}]
    [] e.ev = "step" ->
         [cf |-> cf, js |-> Upd(e.job, [js[e.job] EXCEPT !.steps = @ + 1]),
          cl |-> {<<"C06:timesteps-of-a-running-job", js[e.job].st = "running">>,
                  <<"C06:timesteps-once-each", e.it = js[e.job].steps + 1>>}]
    [] e.ev = "final" ->   \* finalization entered
         [cf |-> cf, js |-> Upd(e.job, [js[e.job] EXCEPT !.st = "ended", !.fin = @ + 1]), cl |-> {}]
    [] e.ev = "dies" ->    \* of an error that is not handled
         [cf |-> cf, js |-> Upd(e.job, [js[e.job] EXCEPT !.st = "ended"]), cl |-> {}]
    [] e.ev = "job" ->     \* afterwards: what is known of job e.job
         LET f == cf.f[e.job]  s == js[e.job] IN
         [cf |-> cf, js |-> js,
          cl |-> {<<"C06:unfailing-job-runs-to-the-end",
                     ~RunFails(f) => (s.steps = cf.want /\ s.starts = 1)>>,
                  <<"C06:failing-job-stops-where-it-failed",
                     (RunFails(f) /\ f # "init") => s.steps = e.failAt>>,
                  <<"C06:every-job-is-finalized", f # "other" => s.fin = 1>>,
                  <<"C06:output-of-job-closed-and-complete",
                     (~RunFails(f)) => e.records = cf.want + 1>>,
                  <<"C06:failed-job-reported-as-failed",
                     (f # "other" /\ ReportedFailed(f)) => e.saidFailed>>,
                  <<"C06:failed-job-not-reported-as-done",
                     RunFails(f) => ~e.saidDone>>,
                  <<"C06:failed-finalization-not-reported-as-done",
                     FinalFails(f) => ~e.saidFinal>>,
                  <<"C06:done-job-reported-as-done", ~RunFails(f) => e.saidDone>>,
                  <<"C06:done-job-not-reported-as-failed", f = "none" => ~e.saidFailed>>,
                  <<"C06:error-in-own-log", (f # "other" /\ ReportedFailed(f)) => e.ownError>>,
                  <<"C06:no-error-of-another-job-in-log", ~e.otherError>>}]
    [] e.ev = "returned" ->
         [cf |-> cf, js |-> js,
          cl |-> {<<"C06:run-returns-normally", e.ok>>,
                  <<"C06:nothing-left-running", e.left = 0>>}]
    [] e.ev = "dry" ->     \* jobs set up, possibly only that
         [cf |-> cf, js |-> js,
          cl |-> {<<"C06:run-returns-normally", e.ok>>,
                  <<"C06:dry-run-sets-up-all-jobs", e.files = e.n>>,
                  <<"C06:dry-run-starts-no-job",
                    Dry(e.file, e.over) => (e.models = 0 /\ e.steps = 0 /\ e.results = 0)>>,
                  <<"C06:runs-unless-dry",
                    ~Dry(e.file, e.over) => (e.models = e.n /\ e.steps = e.n * e.want)>>}]
    [] e.ev = "error" -> [cf |-> cf, js |-> js, cl |-> {<<"no-failure:" \o e.exc, FALSE>>}]
    [] OTHER -> [cf |-> cf, js |-> js, cl |-> {<<"unknown-event", FALSE>>}]
TNext ==
  \/ /\ l <= Len(Trace)
     /\ LET r == Step(Trace[l]) IN
          /\ cf' = r.cf /\ js' = r.js
          /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(r.cl)}
     /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<cf, js, bad>>
TSpec == TInit /\ [][TNext]_<<l, cf, js, bad>>
=============================================================================
