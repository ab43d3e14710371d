------------------------------ MODULE Weights -------------------------------
(* All neighbourhoods made of a few kinds of cells.                         *)
EXTENDS WeightsOps, TLC
CONSTANTS Qs, Gams, Ths
VARIABLES k, q, gam, th2, top
vars == <<k, q, gam, th2, top>>
CONSTANT Kinds
\* the neighbours are chosen in two steps (TLC works on the second in parallel)
A == {1, 2, 3, 4}
Q(i) == CASE i = 1 -> <<3, 0>> [] i = 2 -> <<2, 2>> [] i = 3 -> <<1, -3>> [] i = 4 -> <<0, 0>>
StOf(x) == CASE x = "low" -> 3 [] x = "deep" -> 5 [] OTHER -> 4
DpOf(x) == CASE x = "low" -> 1 [] x = "deep" -> 4 [] x = "self" -> 2 [] OTHER -> 0
\* (beyond the first row, the domain is thought to go on as it ends)
Beyond(f, d) == IF ~top \/ d > 3 THEN f[d] ELSE IF d = 2 THEN "self" ELSE f[d + 3]
N(g, a, b) == LET f == [d \in D |-> IF d = 5 THEN "self" ELSE Beyond(g, d)] IN [s0 |-> 4, st |-> [d \in D |-> StOf(f[d])],
            dp |-> [d \in D |-> DpOf(f[d])], md |-> [d \in D |-> 1],
            wet |-> [d \in D |-> f[d] \in {"self", "low", "deep"}],
            land |-> [d \in D |-> f[d] = "land"], qx |-> a, qy |-> b, top |-> top]
n == N(k, Q(q)[1], Q(q)[2])
Full == DOMAIN k = D \ {5}
Init == /\ k \in [A -> Kinds] /\ q \in Qs /\ gam \in Gams /\ th2 \in Ths /\ top \in BOOLEAN
Next == /\ ~Full /\ \E f \in [(D \ {5}) \ A -> Kinds] : k' = [d \in D \ {5} |-> IF d \in A THEN k[d] ELSE f[d]]
        /\ UNCHANGED <<q, gam, th2, top>>
Spec == Init /\ [][Next]_vars

Live == Full /\ Ways(n) # {} /\ (top => n.qx > 0)
Mirror(d) == d - 2 * Dc(d)
mn == N([d \in D \ {5} |-> k[Mirror(d)]], Q(q)[1], -Q(q)[2])
Proper(p) == /\ \A d \in D : p[d] >= 0
             /\ Sum9(p) > 9985 /\ Sum9(p) <= 10000
             /\ p[5] = 0 /\ \A d \in D : n.land[d] => p[d] = 0
WaterProper == Live => Proper(WaterP(n, gam, th2)) /\ Proper(WalkP(n, gam, th2))
SedProper == Live => Proper(SedP(n, th2))
OnlyWetIfAny == Live =>
    LET p == WaterP(n, gam, th2) IN
    (\E d \in Ways(n) : n.wet[d]) => \A d \in D : p[d] > 0 => n.wet[d]
Close(a, b) == a - b <= 3 /\ b - a <= 3
Symmetric == (Live /\ ~top) =>
    LET p == WaterP(n, gam, th2)  pm == WaterP(mn, gam, th2)
        s == SedP(n, th2)         sm == SedP(mn, th2) IN
    \A d \in D : Close(p[d], pm[Mirror(d)]) /\ Close(s[d], sm[Mirror(d)])
\* a deeper neighbour is not less attractive
Deeper == (Live /\ ~top) =>
    LET p == WaterP(n, gam, th2)  s == SedP(n, th2) IN
    \A d \in {x \in D \ {5} : k[x] = "low"} :
       LET n2 == [n EXCEPT !.dp[d] = 2] IN
       WaterP(n2, gam, th2)[d] >= p[d] - 1 /\ SedP(n2, th2)[d] >= s[d] - 1
\* sediment does not see the water surface, and flows with the discharge
SedIgnoresStage == Live => SedP([n EXCEPT !.s0 = 9], th2) = SedP(n, th2)
GammaEnds == Live =>
             /\ gam = 1000 => WaterP([n EXCEPT !.qx = 1, !.qy = 1], gam, th2) = WaterP(n, gam, th2)
             /\ gam = 0 => WaterP([n EXCEPT !.s0 = 9], gam, th2) = WaterP(n, gam, th2)
=============================================================================
