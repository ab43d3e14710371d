------------------------------- MODULE Domain -------------------------------
(* Every small configuration of the grid.                                   *)
EXTENDS DomainOps, FiniteSets
CONSTANTS Lens, Wids, Dxs, L0s, N0s
VARIABLES c, g
vars == <<c, g>>
Init == c \in [len : Lens, wid : Wids, dx : Dxs, l0 : L0s, n0 : N0s] /\ g = Geo(c)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
InletInside == g.lo >= 1 /\ g.hi <= g.W - 2
Centred == (g.lo + g.hi) - (g.W - 1) \in -2..2
InletWide == g.hi - g.lo + 1 = g.N0
QuarterAtMost == (g.W >= 12 => g.N0 <= g.W \div 4) /\ (g.L >= 4 => g.L0 <= g.L \div 4)
AsConfigured == (Rnd(c.n0, c.dx) \in 3..(g.W \div 4) => g.N0 = Rnd(c.n0, c.dx))
                /\ (Rnd(c.l0, c.dx) \in 1..(g.L \div 4) => g.L0 = Rnd(c.l0, c.dx))
\* the basin is closed: ocean never lies at the rim
Closed == \A r \in 0..(g.L - 1), k \in 0..(g.W - 1) :
            Kind(g, r, k) = 0 => r \in 1..(g.L - 2) /\ k \in 1..(g.W - 2)
\* once the basin is large enough, the inlet opens into it
Opens == (g.L >= 12 /\ g.W >= 2 * (g.L0 + g.N0) + 10) => \A k \in g.lo..g.hi : Kind(g, g.L0, k) = 0
=============================================================================
