----------------------------- MODULE WeightsOps -----------------------------
(* How parcels choose their way: the weights of the eight neighbours of a   *)
(* cell, in whole numbers. Directions d are 1..9, row by row; 5 is to stay. *)
(*                                                                          *)
(* A neighbourhood n: s0 stage of the cell, st[d] stages and dp[d] depths   *)
(* around it, md[d] the modifying array, wet[d], land[d], the discharge     *)
(* (qx downstream, qy across), top: the cell lies in the first row.         *)
(* th2 is twice the exponent, gam the share of the surface in thousandths.  *)
(* Probabilities are in ten-thousandths.                                    *)
EXTENDS Integers, Sequences, FiniteSets

D == 1..9
Dr(d) == ((d - 1) \div 3) - 1
Dc(d) == ((d - 1) % 3) - 1
Diag(d) == Dr(d) # 0 /\ Dc(d) # 0
Nat0(x) == IF x > 0 THEN x ELSE 0
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum9(f) == SumTo(f, 9)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Root(x) == CHOOSE r \in 0..x : r * r = x
\* x to the power th2 / 2 (x a square if th2 is odd)
PowH(x, th2) == IF th2 % 2 = 0 THEN Pow(x, th2 \div 2) ELSE Pow(Root(x), th2)
Scale(f, s, u) == [d \in D |-> IF s = 0 THEN 0 ELSE (f[d] * u) \div s]
\* shares in ten-thousandths of values of any size
Shares(f) ==
    LET s == Sum9(f)
        r == IF s > 200000 THEN s \div 100000 ELSE 1
    IN  IF s = 0 THEN f ELSE [d \in D |-> ((f[d] \div r) * 10000) \div (s \div r)]

\* downhill along the water surface, per distance (99 : 70 for 1 : sqrt(1/2))
Sfc(n) == [d \in D |-> IF d = 5 \/ ~n.wet[d] \/ n.land[d] THEN 0
                       ELSE Nat0(n.s0 - n.st[d]) * (IF Diag(d) THEN 70 ELSE 99)]
\* along the discharge, per distance
Inert(n) == [d \in D |-> IF d = 5 THEN 0
                         ELSE Nat0(n.qx * Dr(d) + n.qy * Dc(d)) * (IF Diag(d) THEN 1 ELSE 2)]
Deep(n, th2) == [d \in D |-> PowH(n.dp[d] * n.md[d], th2)]

\* water
WaterW(n, gam, th2) ==
    LET sf == Sfc(n)
        it == [d \in D |-> IF n.wet[d] /\ ~n.land[d] THEN Inert(n)[d] ELSE 0]
        ws == Scale(sf, Sum9(sf), 1000000)
        wi == Scale(it, Sum9(it), 1000000)
        dw == Deep(n, th2)
    IN  [d \in D |-> ((gam * ws[d] + (1000 - gam) * wi[d]) \div 1000) * dw[d]]
Uniform(S) == [d \in D |-> IF d \in S THEN 10000 \div Cardinality(S) ELSE 0]
Ways(n) == {d \in D : d # 5 /\ ~n.land[d] /\ ~(n.top /\ d < 4)}
WaterP(n, gam, th2) ==
    LET w == WaterW(n, gam, th2)
        wetw == {d \in Ways(n) : n.wet[d]}
    IN  IF Sum9(w) > 0 THEN Shares(w)
        ELSE IF wetw # {} THEN Uniform(wetw) ELSE Uniform(Ways(n))
\* ... and in the first row the upstream directions are drawn again
WalkP(n, gam, th2) ==
    LET p == WaterP(n, gam, th2) IN
    IF n.top THEN Shares([d \in D |-> IF d < 4 THEN 0 ELSE p[d]]) ELSE p

\* sediment
SedW(n, th2) ==
    LET it == Inert(n)  dw == Deep(n, th2) IN
    [d \in D |-> IF n.wet[d] /\ ~n.land[d] THEN it[d] * dw[d] ELSE 0]
SedP(n, th2) ==
    LET w == SedW(n, th2) IN
    IF Sum9(w) > 0 THEN Shares(w)
    ELSE Shares([d \in D |-> IF d \in Ways(n) THEN (IF Diag(d) THEN 70 ELSE 99) ELSE 0])
=============================================================================
