------------------------------ MODULE FlowOps -------------------------------
(* Water surface, depth, discharge and velocity on a grid. Fields are       *)
(* sequences (cell i at i+1). Heights in 1e-5 m.                            *)
EXTENDS WalkOps, SequencesExt, FiniteSetsExt

Clamp(x, n) == IF x < 0 THEN 0 ELSE IF x > n - 1 THEN n - 1 ELSE x
Dirs8 == <<<<-1, -1>>, <<-1, 0>>, <<-1, 1>>, <<0, -1>>, <<0, 1>>, <<1, -1>>, <<1, 0>>, <<1, 1>>>>
\* neighbour in a direction; beyond the rim the rim itself
NbrC(g, i, d) == Clamp(Row(g, i) + Dirs8[d][1], g.L) * g.W + Clamp(Col(g, i) + Dirs8[d][2], g.W)
SumSeq(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)

(* ---- flooding correction: f = [wet, stage, eta] ---- *)
WetSurfaces(g, f, i) == {f.stage[j + 1] : j \in {k \in Around(g, i) : f.wet[k + 1] = 1}}
Floods(g, f, i) == f.wet[i + 1] = 0 /\ \E s \in WetSurfaces(g, f, i) : s > f.eta[i + 1]
FloodAt(g, f, i) == IF Floods(g, f, i) THEN CHOOSE s \in WetSurfaces(g, f, i) : \A t \in WetSurfaces(g, f, i) : t <= s
                    ELSE f.stage[i + 1]
\* too close to call in fixed point
FloodVerge(g, f, i, tol) ==
    \/ f.wet[i + 1] = 2
    \/ f.wet[i + 1] = 0 /\ \E j \in Around(g, i) : f.wet[j + 1] = 2
    \/ f.wet[i + 1] = 0 /\ \E s \in WetSurfaces(g, f, i) : s - f.eta[i + 1] \in -tol..tol
Flood(g, f) == [i \in 1..(g.L * g.W) |-> FloodAt(g, f, i - 1)]

(* ---- smoothing, with weight c (in 1/1000) of the old value ---- *)
SmoothOnce(g, H, c) == [k \in 1..(g.L * g.W) |->
    LET i == k - 1 IN
    IF g.type[k] = -1 THEN H[k]
    ELSE LET ds == {d \in 1..8 : g.type[NbrC(g, i, d) + 1] # -2}
             n == Cardinality(ds)
             s == FoldSet(LAMBDA d, acc : acc + H[NbrC(g, i, d) + 1], 0, ds)
         IN  IF n = 0 THEN H[k] ELSE (c * H[k] + (1000 - c) * (s \div n)) \div 1000]
RECURSIVE Smooth(_, _, _, _)
Smooth(g, H, c, n) == IF n = 0 THEN H ELSE Smooth(g, SmoothOnce(g, H, c), c, n - 1)

(* ---- the surface along the path of a parcel that reached the edge ----   *)
(* upstream from the edge: sea level until the shore is passed, then with   *)
(* the slope along the streamlines. w: path; result: heights at w[1..n-1]   *)
RECURSIVE Climb(_, _, _, _, _, _)
Climb(g, f, w, k, ocean, acc) ==
    IF k = 0 THEN acc.hs
    ELSE LET i == w[k]  j == w[k + 1]
             shore == f.shore[i + 1] = 1
             dh == IF i = j THEN acc.dh
                   ELSE IF ocean THEN acc.dh
                   ELSE IF f.uw[i + 1] = 0 THEN 0
                   ELSE (f.sdx * (f.cx[i + 1] * (Row(g, j) - Row(g, i)) + f.cy[i + 1] * (Col(g, j) - Col(g, i)))) \div 10000
             oc == IF i # j /\ ocean /\ shore THEN FALSE ELSE ocean
             h == acc.h + dh
         IN  Climb(g, f, w, k - 1, oc, [h |-> h, dh |-> dh, hs |-> Append(acc.hs, <<i, h>>)])
Surface(g, f, w) == Climb(g, f, w, Len(w) - 1, TRUE, [h |-> f.sl, dh |-> 0, hs |-> <<>>])

(* ---- velocity: u, depth, q related by u * depth = q up to the cap ---- *)
(* u in 1e-4 m/s, d in 1e-3 m, q in 1e-4 m2/s, cap in 1e-4 m/s              *)
VelOK(u, d, q, cap, wet) ==
    IF wet = 0 \/ q = 0 THEN u = 0 \/ (q = 0 /\ wet # 0 /\ u <= 2)
    ELSE IF wet = 2 THEN TRUE
    ELSE IF q > 2000000 THEN u \in (cap - 1)..(cap + 1)      \* over 200 m2/s: always capped
    ELSE LET tol == (d + u) \div 2 + 2000 IN
         \/ u <= cap + 1 /\ u * d - q * 1000 \in -tol..tol
         \/ u \in (cap - 1)..(cap + 1) /\ q * 1000 >= cap * d - tol
=============================================================================
