---------------------------- MODULE WeightsTrace ----------------------------
(* Weights computed and ways taken by the implementation.                   *)
(* "grid": the state of all cells (sequences, cell r * W + c at that + 1);  *)
(* "array": routing weights of cells; "walk": how often parcels went from a *)
(* cell in each direction; "start": where parcels started; "sed": how often *)
(* sediment parcels of one or two steps were found in a cell; "fill":       *)
(* depths of shallow cells before and after many parcels (1e-4 m).          *)
EXTENDS WeightsOps, TraceLib, FiniteSetsExt
VARIABLES l, g, bad
vars == <<l, g, bad>>
TInit == l = 1 /\ g = 0 /\ bad = {}

Clamp(x, m) == IF x < 0 THEN 0 ELSE IF x > m THEN m ELSE x
At(i, d) == Clamp((i \div g.W) + Dr(d), g.L - 1) * g.W + Clamp((i % g.W) + Dc(d), g.W - 1) + 1
N(i) == LET at == [d \in D |-> At(i, d)] IN
        [s0 |-> g.st[i + 1], st |-> [d \in D |-> g.st[at[d]]], dp |-> [d \in D |-> g.dp[at[d]]],
         md |-> [d \in D |-> g.md[at[d]]], wet |-> [d \in D |-> g.wet[at[d]] = 1],
         land |-> [d \in D |-> g.ty[at[d]] = -2],
         qx |-> g.qx[i + 1], qy |-> g.qy[i + 1], top |-> (i < g.W)]

\* k of n where the share p (in 10000) is expected; seven standard deviations
\* of a sum of n independent values with second moment e2 (in 10000)
Fits(k, n, p, e2) ==
    LET m == (n * p) \div 10000
        v == (n * e2) \div 10000 - ((m * p) \div 10000)
        a == Abs(k - m) - 4 - ((n * 15) \div 10000)
    IN  a <= 0 \/ a * a <= 49 * (Nat0(v) + 1)

ArrayFails(e) ==
    UNION {LET c == e.cells[j]
               p == WaterP(N(c.i), g.gam, g.th2)
           IN  Fails({<<"C18:water-weights-follow-surface-discharge-and-depth",
                        \A d \in D : Near(c.p[d], p[d], 15)>>})
           : j \in 1..Len(e.cells)}
WalkFails(e) ==
    UNION {LET c == e.cells[j]
               p == WalkP(N(c.i), g.gam, g.th2)
           IN  Fails({<<"C18:water-goes-where-the-weights-say",
                        \A d \in D : Fits(c.k[d], c.n, p[d], p[d])>>,
                      <<"C18:never-where-there-is-no-weight",
                        \A d \in D : c.k[d] > 0 => p[d] > 0 \/ WaterW(N(c.i), g.gam, g.th2)[d] > 0>>})
           : j \in 1..Len(e.cells)}
RECURSIVE SumSeq(_)
SumSeq(w) == IF w = <<>> THEN 0 ELSE Head(w) + SumSeq(Tail(w))
Share(w, j) == (w[j] * 10000) \div SumSeq(w)
StartFails(e) ==
    Fails({<<"C18:parcels-start-by-the-weights-of-the-inlet",
             \A j \in 1..Len(e.w) : Fits(e.k[j], e.n, Share(e.w, j), Share(e.w, j))>>,
           <<"C18:no-start-without-weight", \A j \in 1..Len(e.w) : e.w[j] = 0 => e.k[j] = 0>>})

\* sediment: the chance to be somewhere after one and after two steps
Cells == 0..(4 * g.W - 1)
DirTo(i, c) == {d \in D \ {5} : (i \div g.W) + Dr(d) = c \div g.W /\ (i % g.W) + Dc(d) = c % g.W}
Chance(P, from, c) ==  \* from: chances to be in cells; P: choices of cells
    LET In == {i \in DOMAIN from : from[i] > 0 /\ DirTo(i, c) # {}}
        v(i) == (from[i] * P[i][CHOOSE d \in DirTo(i, c) : TRUE] + 5000) \div 10000
    IN  MapThenSumSet(v, In)
SedFails(e) ==
    LET w == e.w
        s0 == TLCEval([i \in {e.inlet[j] : j \in 1..Len(w)} |->
                  Share(w, CHOOSE j \in 1..Len(w) : e.inlet[j] = i)])
        P0 == TLCEval([i \in DOMAIN s0 |-> SedP(N(i), g.th2)])
        s1 == TLCEval([c \in 0..(2 * g.W - 1) |-> Chance(P0, s0, c)])
        P1 == TLCEval([i \in {x \in DOMAIN s1 : s1[x] > 0} |-> SedP(N(i), g.th2)])
        s2 == TLCEval([c \in 0..(3 * g.W - 1) |-> IF e.steps = 2 THEN Chance(P1, s1, c) ELSE 0])
        a(c) == IF c \in DOMAIN s0 THEN s0[c] ELSE 0
        b(c) == IF c \in DOMAIN s1 THEN s1[c] ELSE 0
        last(c) == IF e.steps = 2 THEN s2[c] ELSE b(c)
        mid(c) == IF e.steps = 2 THEN b(c) ELSE 0
        \* sand is counted twice where it starts and passes, once where it ends; mud where it arrives
        mean(c) == IF e.kind = "sand" THEN 2 * a(c) + 2 * mid(c) + last(c) ELSE mid(c) + last(c)
        sq(c) == IF e.kind = "sand" THEN 4 * a(c) + 4 * mid(c) + 5 * last(c) ELSE mid(c) + last(c)
    IN  Fails({<<(IF e.kind = "sand" THEN "C18:sand-goes-where-the-weights-say"
                  ELSE "C18:mud-goes-where-the-weights-say"),
                 \A c \in 0..(3 * g.W - 1) : Fits(e.k[c + 1], e.n, mean(c), sq(c))>>,
               <<"C18:nothing-beyond-the-last-step",
                 \A c \in (3 * g.W)..(Len(e.k) - 1) : e.k[c + 1] = 0>>})
\* an exchange takes at most a quarter of the depth, and a cell that has fallen
\* dry takes no more while deeper ones are near
FillFails(e) ==
    Fails({<<"C18:no-sediment-goes-where-it-is-dry",
             \A i \in 1..Len(e.d0) : e.d0[i] < e.dry - 2 => Near(e.d1[i], e.d0[i], 1)>>,
           <<"C18:a-cell-that-was-filled-gets-no-more",
             \A i \in 1..Len(e.d0) : e.d0[i] >= e.dry + 2 => e.d1[i] >= ((e.dry * 3) \div 4) - 2>>})
Put(S) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in S}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> UNCHANGED <<g, bad>>
          [] e.ev = "grid" -> g' = e /\ UNCHANGED bad
          [] e.ev = "array" -> Put(ArrayFails(e)) /\ UNCHANGED g
          [] e.ev = "walk" -> Put(WalkFails(e)) /\ UNCHANGED g
          [] e.ev = "start" -> Put(StartFails(e)) /\ UNCHANGED g
          [] e.ev = "sed" -> Put(SedFails(e)) /\ UNCHANGED g
          [] e.ev = "fill" -> Put(FillFails(e)) /\ UNCHANGED g
          [] e.ev = "error" -> Put({"no-failure:" \o e.exc}) /\ UNCHANGED g
          [] OTHER -> Put({"unknown-event"}) /\ UNCHANGED g
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<g, bad>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
