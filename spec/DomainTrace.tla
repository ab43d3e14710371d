---------------------------- MODULE DomainTrace -----------------------------
(* Newly built models. Cells are listed row by row.                         *)
EXTENDS DomainOps, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
TInit == l = 1 /\ bad = {}
A0(i) == IF i < 0 THEN -i ELSE i
R(g, k) == (k - 1) \div g.W
K(g, k) == (k - 1) % g.W
Clauses(e) ==
    LET g == Geo(e.c)
        cells == 1..(g.L * g.W)
        size == e.L = g.L /\ e.W = g.W /\ Len(e.type) = g.L * g.W
        p == e.p
    IN  {<<"C15:rounded-number-of-cells", size>>,
         <<"C15:inlet-length-and-width", e.L0 = g.L0 /\ e.N0 = g.N0>>,
         <<"C15:fields-have-the-shape-of-the-grid", e.shapes>>,
         <<"C15:inlet-cells", e.inlet = [k \in 1..g.N0 |-> g.lo + k - 1]>>,
         <<"C15:cell-types", ~size \/ \A k \in cells : e.type[k] = Kind(g, R(g, k), K(g, k))>>,
         <<"C15:initial-stage", ~size \/ \A k \in cells : Near(e.stage[k], Stage0(g, p, R(g, k)), g.L0)>>,
         <<"C15:initial-depth", ~size \/ \A k \in cells : Near(e.depth[k], Depth0(g, p, R(g, k), K(g, k)), 1)>>,
         <<"C15:bed-is-stage-minus-depth", ~size \/ \A k \in cells : Near(e.eta[k], e.stage[k] - e.depth[k], 2)>>,
         <<"C15:initial-discharge", ~size \/ \A k \in cells :
              /\ Near(5 * e.qx[k], Q50(g, p, R(g, k), K(g, k)), 5) /\ e.qy[k] = 0 /\ Near(e.qw[k], e.qx[k], 1)>>,
         <<"C15:initial-velocity", ~size \/ \A k \in cells :
              /\ e.uy[k] = 0 /\ Near(e.uw[k], e.ux[k], 1)
              /\ IF e.depth[k] = 0 THEN e.ux[k] = 0
                 ELSE A0(e.ux[k] * (e.depth[k] \div 10) - e.qx[k] * 1000) <= 1000 + e.depth[k] \div 10 + e.ux[k]>>,
         <<"C15:initial-sand-fraction", \A k \in 1..Len(e.sf) : Near(e.sf[k], p.bc, 1)>>,
         <<"C15:coordinates", /\ e.xc = [k \in 1..g.L |-> (k - 1) * e.c.dx] /\ e.yc = [k \in 1..g.W |-> (k - 1) * e.c.dx]
                              /\ e.mesh>>,
         <<"C15:nothing-routed-yet", e.zero>>,
         <<"C15:clock-at-zero", e.clock>>,
         <<"C15:default-number-of-steps", e.stepmax = (IF p.stepmax = 0 THEN 2 * (g.L + g.W) ELSE p.stepmax)>>}
FileClauses(e) == LET g == Geo(e.c) IN
    {<<"C15:file-has-the-grid", e.nx = g.L /\ e.ny = g.W /\ e.fx = [k \in 1..g.L |-> (k - 1) * e.c.dx]
                                /\ e.fy = [k \in 1..g.W |-> (k - 1) * e.c.dx]>>,
     <<"C15:file-has-the-inlet", e.L0 = g.L0 /\ e.N0 = g.N0 /\ e.CTR = g.CTR>>}
Put(S) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in S}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> UNCHANGED bad
          [] e.ev = "new" -> Put(Fails(Clauses(e)))
          [] e.ev = "file" -> Put(Fails(FileClauses(e)))
          [] e.ev = "error" -> Put({"no-failure:" \o e.exc})
          [] OTHER -> Put({"unknown-event"})
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_vars
=============================================================================
