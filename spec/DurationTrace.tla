--------------------------- MODULE DurationTrace ----------------------------
(* Jobs run by the implementation: what was given where, and how many       *)
(* timesteps were performed.                                                *)
EXTENDS DurationOps, TraceLib
VARIABLES l, cf, bad
TInit == l = 1 /\ cf = [dt |-> 1] /\ bad = {}

JobClauses(e) ==
    LET eff == Effective(e.file, e.over) IN
    IF Refused(eff)
    THEN {<<"C07:refused-without-a-duration", e.outcome = "ValueError">>,
          <<"C07:refused-before-any-timestep", e.steps = 0>>}
    ELSE {<<"C07:accepted-with-a-duration", e.outcome = "ran">>,
          <<"C07:" \o Kind(eff) \o (IF Given(e.over) THEN "-given-as-override" ELSE "-given-in-file")
              \o (IF e.n0 > 0 THEN "-counted-from-resumed-state" ELSE ""),
            e.outcome = "ran" =>
               (e.steps = (IF Kind(eff) = "ts" THEN eff.ts ELSE Steps(eff, cf.dt)))>>,
          <<"C07:timestep-count-of-model", (e.outcome = "ran" /\ e.it >= 0) => e.it = e.n0 + e.steps>>,
          <<"C07:clock-of-model",
            (e.outcome = "ran" /\ e.t >= 0 /\ cf.dt > 0) => e.t = e.t0 + e.steps * cf.dt>>}

Step(e) ==
  CASE e.ev = "begin" -> [cf |-> e.cfg, cl |-> {}]
    [] e.ev = "job" -> [cf |-> cf, cl |-> JobClauses(e)]
    [] e.ev = "error" -> [cf |-> cf, cl |-> {<<"no-failure:" \o e.exc, FALSE>>}]
    [] OTHER -> [cf |-> cf, cl |-> {<<"unknown-event", FALSE>>}]
TNext ==
  \/ /\ l <= Len(Trace)
     /\ LET r == Step(Trace[l]) IN
          cf' = r.cf /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(r.cl)}
     /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<cf, bad>>
TSpec == TInit /\ [][TNext]_<<l, cf, bad>>
=============================================================================
