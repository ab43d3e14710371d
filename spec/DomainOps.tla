----------------------------- MODULE DomainOps ------------------------------
(* The grid, its cell types and the initial fields, from the configuration. *)
(* c = [len, wid, dx, l0, n0]: lengths as integers in one unit.             *)
EXTENDS Integers
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
\* the integer nearest to a / b, to even on a tie
Rnd(a, b) == LET q == a \div b  r == a % b IN
             IF 2 * r < b THEN q ELSE IF 2 * r > b THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
Geo(c) ==
    LET L == Rnd(c.len, c.dx)   W == Rnd(c.wid, c.dx)
        half == W \div 2
        ctr == IF half - 1 <= 1 THEN half ELSE half - 1
        L0 == Mx(1, Mn(Rnd(c.l0, c.dx), L \div 4))
        N0 == Mx(3, Mn(Rnd(c.n0, c.dx), W \div 4))
        lo == ctr - Rnd(N0, 2) + 1
    IN  [L |-> L, W |-> W, CTR |-> ctr, L0 |-> L0, N0 |-> N0, lo |-> lo, hi |-> lo + N0 - 1]
\* beyond the half circle around the inlet that bounds the basin
Far(g, r, k) == LET t == Mn(2 * g.L - 10, g.W - 10)
                    d == (r - 3) * (r - 3) + (k - g.CTR) * (k - g.CTR)
                IN  t <= 0 \/ 4 * d >= t * t
Kind(g, r, k) == IF r < g.L0 THEN (IF k >= g.lo /\ k <= g.hi THEN 1 ELSE -2)
                 ELSE IF r = g.L - 1 \/ k = 0 \/ k = g.W - 1 \/ Far(g, r, k) THEN -1 ELSE 0
(* initial fields; p = [sdx, hb, h0, q0]: slope times cell size, basin and  *)
(* inlet depth, unit discharge at the inlet                                 *)
Stage0(g, p, r) == IF r < g.L0 THEN (g.L0 - r - 1) * p.sdx ELSE 0
Depth0(g, p, r, k) == IF r >= g.L0 THEN p.hb ELSE IF Kind(g, r, k) = 1 THEN p.h0 ELSE 0
\* five times the discharge
Q50(g, p, r, k) == IF r >= g.L0 THEN p.q0 ELSE IF Kind(g, r, k) = 1 THEN 5 * p.q0 ELSE 0
=============================================================================
