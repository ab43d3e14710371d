---------------------------- MODULE ForcingTrace ----------------------------
(* Recorded timesteps of real runs.                                         *)
EXTENDS ForcingOps, TraceLib
VARIABLES l, c, s, bad
vars == <<l, c, s, bad>>
TInit == l = 1 /\ c = 0 /\ s = 0 /\ bad = {}
At(e) == {<<"C10:clock", e.t = s.t /\ e.it = s.it>>, <<"C10:sea-level", e.sl = s.sl>>}
StepClauses(e) ==
    LET n == Step(c, s)
        k == Sink(c, s)
        tol == c.tol
    IN  {<<"C10:clock-advances-by-the-timestep", e.t = n.t /\ e.it = n.it>>,
         <<"C10:sea-level-rises-by-rate-times-timestep", e.sl = n.sl>>,
         <<"C10:timestep-uses-the-sea-level-before-the-rise",
           \A i \in 1..Len(e.during) : e.during[i] = s.sl>>,
         <<"C10:water-starts-from-the-sea-level-before-the-rise",
           e.stageKnown => e.edge = (IF e.edge0 > s.sl THEN e.edge0 ELSE s.sl)>>,
         <<"C10:land-at-the-inlet-never-subsides", \A i \in 1..Len(e.land) : Near(e.land[i], 0, tol)>>,
         <<IF ~c.on THEN "C10:no-subsidence-when-off"
           ELSE IF k = 0 THEN "C10:no-subsidence-before-its-start"
           ELSE "C10:bed-sinks-by-rate-times-timestep", \A i \in 1..Len(e.rest) : Near(e.rest[i], -k, tol)>>,
         <<"C10:nothing-else-moves-the-bed", e.whole # <<>> =>
               /\ \A i \in 1..Len(e.whole) : Near(e.whole[i], -k, tol)
               /\ \A i \in 1..Len(e.wholeland) : Near(e.wholeland[i], 0, tol)>>}
Put(cl) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(cl)}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> c' = e.cfg /\ s' = (IF Has(e.cfg, "on") THEN Begin(e.cfg) ELSE 0) /\ UNCHANGED bad
          [] e.ev = "at" -> Put(At(e)) /\ UNCHANGED <<c, s>>
          [] e.ev = "step" -> Put(StepClauses(e)) /\ s' = Step(c, s) /\ UNCHANGED c
          [] e.ev = "slr" -> s' = [s EXCEPT !.slr = e.v] /\ UNCHANGED <<c, bad>>
          [] e.ev = "sl" -> s' = [s EXCEPT !.sl = e.v] /\ UNCHANGED <<c, bad>>
          [] e.ev = "dt" -> s' = [s EXCEPT !.dt = e.v] /\ UNCHANGED <<c, bad>>
          [] e.ev = "resume" -> s' = Resume(c, s) /\ Put(At(e)) /\ UNCHANGED c
          [] e.ev = "error" -> Put({<<"no-failure:" \o e.exc, FALSE>>}) /\ UNCHANGED <<c, s>>
          [] OTHER -> Put({<<"unknown-event", FALSE>>}) /\ UNCHANGED <<c, s>>
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<c, s, bad>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
