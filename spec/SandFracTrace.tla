--------------------------- MODULE SandFracTrace ----------------------------
(* Recorded timesteps: composition of every cell before and after.          *)
EXTENDS SandFracOps, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
TInit == l = 1 /\ bad = {}
Cell(e, k) == [sf |-> e.sf[k], al |-> e.al[k]]
What(e, k) == [recv |-> e.recv[k], deg |-> e.deg[k], deep |-> e.deep[k], mix |-> e.mix[k]]
Same(e, k, c) == Near(e.sf2[k], c.sf, 2) /\ Near(e.al2[k], c.al, 2)
Ok(e, k) == \E c \in After(Cell(e, k), What(e, k), e.bc) : Same(e, k, c)
N(e) == 1..Len(e.sf)
StepClauses(e) ==
    {<<"C14:received-sediment-sets-sand-fraction-and-active-layer", \A k \in N(e) : e.recv[k] = 1 => Ok(e, k)>>,
     <<"C14:erosion-within-the-active-layer-exposes-it",
       \A k \in N(e) : (e.recv[k] = 0 /\ e.deg[k] = 1 /\ e.deep[k] = 0) => Ok(e, k)>>,
     <<"C14:erosion-beyond-the-active-layer-exposes-the-boundary-value",
       \A k \in N(e) : (e.recv[k] = 0 /\ e.deg[k] = 1 /\ e.deep[k] = 1) => Ok(e, k)>>,
     <<"C14:other-cells-keep-their-values", \A k \in N(e) : (e.recv[k] = 0 /\ e.deg[k] = 0) => Ok(e, k)>>,
     <<"C14:too-close-to-call-is-one-of-both", \A k \in N(e) : Ok(e, k)>>,
     <<"C14:between-zero-and-one", \A k \in N(e) : e.sf2[k] \in 0..1000000 /\ e.al2[k] \in 0..1000000>>,
     <<"C14:unchanged-between-timesteps", e.cont>>,
     <<"C14:nothing-else-changes", e.rest>>}
BeginClauses(e) == {<<"C14:starts-from-the-boundary-value", \A k \in N(e) : Near(e.sf[k], e.bc, 1) /\ Near(e.al[k], e.bc, 1)>>}
Put(S) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in S}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> UNCHANGED bad
          [] e.ev = "init" -> Put(Fails(BeginClauses(e)))
          [] e.ev = "step" -> Put(Fails(StepClauses(e)))
          [] e.ev = "error" -> Put({"no-failure:" \o e.exc})
          [] OTHER -> Put({"unknown-event"})
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_vars
=============================================================================
