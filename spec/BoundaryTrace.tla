--------------------------- MODULE BoundaryTrace ----------------------------
(* Recorded histories of changes of the boundary conditions.                *)
EXTENDS BoundaryOps, TraceLib
VARIABLES l, bad, k, c
vars == <<l, bad, k, c>>
NoK == [dx |-> 0]
TInit == l = 1 /\ bad = {} /\ k = NoK /\ c = NoK
Rel(a, b) == Near(a, b, 1 + Abs(b) \div 5000)
Clauses(kk, cc, e) ==
    LET d == Derived(kk, cc)  o == e.obs IN
    {<<"C16:controls-report-the-condition",
        /\ o.u = cc.u /\ o.h = cc.h /\ o.cpct = cc.C /\ o.f = cc.f /\ o.sl = cc.sl /\ o.slr = cc.slr
        /\ o.width = d.width /\ Near(o.ts, d.dt, 1)>>,
     <<"C16:velocity-cap", o.umax = d.umax>>,
     <<"C16:concentration", o.conc = d.conc>>,
     <<"C16:dry-depth", o.dry = d.dry>>,
     <<"C16:inlet-width", o.N0 = Cells(kk, cc)>>,
     <<"C16:weighting-coefficient", Near(o.gamma, d.gamma, 1)>>,
     <<"C16:reference-volume", Rel(o.ref, d.ref)>>,
     <<"C16:water-discharge", Rel(o.qw, d.qw) /\ Rel(o.Qw, d.Qw)>>,
     <<"C16:water-parcel", Rel(o.Qp, d.Qp)>>,
     <<"C16:sediment-discharge", Rel(o.qs, d.qs) /\ Rel(o.Qs, d.Qs)>>,
     <<"C16:sediment-volume", Rel(o.vs, d.vs) /\ Rel(o.vp, d.vp)>>,
     <<"C16:timestep", Near(o.dt, d.dt, 1)>>,
     <<"C16:diffusion", o.smooths = d.smooths /\ Near(o.diff, d.diff, 2 + d.diff \div 3000)>>,
     <<"C16:subsidence-per-timestep", ~e.sub \/ (Near(o.sigma, d.dt, 1) /\ o.sigland)>>,
     <<"C16:thresholds-inlet-and-fields-untouched", e.kept>>,
     <<"C16:adjusted-width-is-announced", e.op # "width" \/ (e.warned <=> d.width # cc.n)>>}
StepClauses(e) ==
    {<<"C16:next-timestep-is-that-of-a-model-in-that-condition", e.same>>,
     <<"C16:sediment-brought-in", Near(e.rate, 10000, 5)>>,
     <<"C16:timestep-length-used", e.dtUsed>>}
Put(S) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in S}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> k' = NoK /\ c' = NoK /\ UNCHANGED bad
          [] e.ev = "new" -> k' = e.k /\ c' = e.c /\ Put(Fails(Clauses(e.k, e.c, e)))
          [] e.ev = "set" -> c' = Do(c, e.op, e.v) /\ Put(Fails(Clauses(k, Do(c, e.op, e.v), e))) /\ UNCHANGED k
          [] e.ev = "step" -> c' = [c EXCEPT !.sl = e.sl] /\ Put(Fails(StepClauses(e))) /\ UNCHANGED k
          [] e.ev = "error" -> Put({"no-failure:" \o e.exc}) /\ UNCHANGED <<k, c>>
          [] OTHER -> Put({"unknown-event"}) /\ UNCHANGED <<k, c>>
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<bad, k, c>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
