-------------------------------- MODULE Walk --------------------------------
(* All walks of one parcel on small grids.                                  *)
EXTENDS WalkOps, TLC
CONSTANTS StepMax
VARIABLES p, n, start, flag
vars == <<p, n, start, flag>>
\* L = 7, W = 7: first row land but for the inlet, edge along the rim
LL == 7  WW == 7
TypeOf(r, c) == IF r = 0 THEN (IF c = 3 THEN 1 ELSE -2)
                ELSE IF r = LL - 1 \/ c = 0 \/ c = WW - 1 THEN -1
                ELSE 0
g == [L |-> LL, W |-> WW, L0 |-> 1, CTR |-> 3,
      type |-> [k \in 1..(LL * WW) |-> TypeOf((k - 1) \div WW, (k - 1) % WW)],
      near |-> [k \in 1..(LL * WW) |-> IF (k - 1) \div WW > 3 THEN 1 ELSE 0], inlet |-> {3}]
Init == \E i \in g.inlet : p = Born(i, g) /\ n = 0 /\ start = i /\ flag = 1
Step == /\ p.pos # 0 /\ n < StepMax
        /\ \E r \in Results(g, p, Open(g, p.pos)) :
             /\ p' = Move(g, p, {r}, r.rec)
             /\ flag' = IF r.dis THEN 0 ELSE flag
        /\ n' = n + 1 /\ UNCHANGED start
Next == Step
Spec == Init /\ [][Next]_vars
Inside == p.pos \in 0..(LL * WW - 1)
NeverOnLand == p.pos # 0 => Type(g, p.pos) # -2
EdgeEnds == p.gone <=> p.pos = 0
FlagKnown == (flag = 0 => p.may) /\ (flag = 1 => ~p.must)
ASSUME RelocInside == \A i \in 1..(LL * WW - 1) : Beyond(g, i) =>
    LET j == Reloc(g, i) IN
       /\ Row(g, j) \in g.L0..(LL - 2) /\ Col(g, j) \in 1..(WW - 2)
       /\ (Row(g, i) \in g.L0..(LL - 2) /\ Col(g, i) \in 1..(WW - 2)) =>
             (Row(g, j) - Row(g, i)) \in -5..5 /\ (Col(g, j) - Col(g, i)) \in -5..5
=============================================================================
