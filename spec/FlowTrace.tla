----------------------------- MODULE FlowTrace ------------------------------
(* Recorded water iterations, timesteps and flooding corrections.           *)
EXTENDS FlowOps, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
TInit == l = 1 /\ bad = {}
N(e) == e.L * e.W
A0(i) == IF i < 0 THEN -i ELSE i

(* ---- the water surface ---- *)
\* parcels that count: reached the edge and did not loop above sea level
Trim(w) == SelectSeq(w, LAMBDA x : x > 0)
Counts(e, k) == LET w == Trim(e.walks[k]) IN e.flags[k] = 1 /\ e.type[w[Len(w)] + 1] = -1
Entries(e) == FlattenSeq([k \in 1..Len(e.walks) |-> IF Counts(e, k) THEN Surface(e, e, Trim(e.walks[k])) ELSE <<>>])
Verge(e) == \E k \in 1..Len(e.walks) : Counts(e, k) /\ \E j \in 1..Len(e.walks[k]) :
                 e.walks[k][j] > 0 /\ e.shore[e.walks[k][j] + 1] = 2
Tally(e) == FoldSeq(LAMBDA x, acc : [acc EXCEPT ![x[1] + 1] = <<@[1] + 1, @[2] + x[2]>>],
                    [k \in 1..N(e) |-> <<0, 0>>], Entries(e))
Hnew(e) == LET t == Tally(e) IN
    [k \in 1..N(e) |-> LET h == IF t[k][1] > 0 THEN t[k][2] \div t[k][1] ELSE e.hpre[k] IN Max(Max(h, e.sl), e.eta[k])]
Relaxed(e) == IF e.first THEN e.stage
              ELSE LET s == Smooth(e, Hnew(e), e.cs, e.ns) IN
                   [k \in 1..N(e) |-> ((1000 - e.osfc) * e.stage[k] + e.osfc * s[k]) \div 1000]
StageClause(e) ==
    LET r == Relaxed(e)
        f == [wet |-> e.wet, stage |-> r, eta |-> e.eta]
        tol == e.tol
    IN  {<<"C12:water-surface-from-the-paths-of-the-parcels",
           Verge(e) \/ \A k \in 1..N(e) :
              FloodVerge(e, f, k - 1, 3 * tol) \/ Near(e.stage2[k], Max(FloodAt(e, f, k - 1), e.sl), tol)>>}

(* ---- discharge: what the parcels carried, in units of a parcel's share --*)
RECURSIVE Carry(_, _, _, _, _)
Carry(e, p, w, k, acc) ==
    IF k > Len(w) \/ p.gone \/ acc.amb THEN acc
    ELSE LET n == w[k]
             ts == {t \in Open(e, p.pos) : \E r \in Result(e, p, t) : r.rec = n}
             t == CHOOSE x \in ts : TRUE
             r == CHOOSE x \in Result(e, p, t) : x.rec = n
             dr == Row(e, t) - Row(e, p.pos)
             dc == Col(e, t) - Col(e, p.pos)
             one == <<<<p.pos, dr, dc>>, <<t, dr, dc>>>>
             more == IF e.type[r.to + 1] = -1 THEN <<<<r.to, dr, dc>>>> ELSE <<>>
         IN  IF Cardinality(ts) # 1 THEN [acc EXCEPT !.amb = TRUE]
             ELSE Carry(e, Move(e, p, {r}, n), w, k + 1, [acc EXCEPT !.xs = @ \o one \o more])
Flux(e) == [k \in 1..Len(e.walks) |->
              Carry(e, Born(e.walks[k][1], e), e.walks[k], 2, [amb |-> FALSE, xs |-> <<>>])]
\* per cell: visits, axial and diagonal steps along rows and columns
Sums(e, fl) == FoldSeq(LAMBDA x, acc :
        [acc EXCEPT ![x[1] + 1] =
           IF x[2] # 0 /\ x[3] # 0 THEN <<@[1] + 1, @[2], @[3] + x[2], @[4], @[5] + x[3]>>
           ELSE <<@[1] + 1, @[2] + x[2], @[3], @[4] + x[3], @[5]>>],
    [k \in 1..N(e) |-> <<0, 0, 0, 0, 0>>], FlattenSeq([k \in 1..Len(fl) |-> fl[k].xs]))
InletCells(e) == {e.inlet[k] + 1 : k \in 1..Len(e.inlet)}
FluxOK(e, s, k) ==
    IF Max(A0(e.qx2[k]), A0(e.qy2[k])) > 400000 \/ Max(A0(e.qx[k]), A0(e.qy[k])) > 400000 THEN FALSE ELSE
    LET d == 1 + s[k][1] \div 200
        n == s[k][1] \div d
        vx == (1000 * s[k][2] + 707 * s[k][3]) \div (10 * d)
        vy == (1000 * s[k][4] + 707 * s[k][5]) \div (10 * d)
        w == IF e.first THEN 1000 ELSE e.om
        tx == (1000 * e.qx2[k] - (1000 - w) * e.qx[k]) \div (w * d)
        ty == (1000 * e.qy2[k] - (1000 - w) * e.qy[k]) \div (w * d)
        m == (100 * s[k][1]) \div d
        big == Max(A0(tx), A0(ty)) > 30000
        mag == tx * tx + ty * ty - m * m
        cross == tx * vy - ty * vx
        zero == tx \in -3..3 /\ ty \in -3..3
    IN  IF big THEN FALSE ELSE IF s[k][2] = 0 /\ s[k][3] = 0 /\ s[k][4] = 0 /\ s[k][5] = 0 THEN zero \/ mag \in -(800 * n + 20)..(800 * n + 20)
        ELSE /\ mag \in -(800 * n + 20)..(800 * n + 20)
             /\ (A0(vx) + A0(vy) > 60) =>
                   /\ A0(cross) <= 4 * (A0(vx) + A0(vy)) + 3 * (A0(tx) + A0(ty))
                   /\ tx * vx + ty * vy > 0
\* keeps products within TLC's integers
Shrink(e, k) == 1 + Max(Max(e.qw2[k], e.uw2[k]), Max(A0(e.qx2[k]), A0(e.qy2[k]))) \div 20000
FlowClauses(e) ==
    LET fl == Flux(e)
        amb == \E k \in 1..Len(fl) : fl[k].amb
        s == Sums(e, fl)
    IN  {<<"C12:discharge-is-what-the-parcels-carried",
           amb \/ \A k \in (1..N(e)) \ InletCells(e) : FluxOK(e, s, k)>>,
         <<"C12:discharge-magnitude", \A k \in 1..N(e) :
              LET d == Shrink(e, k)  w == e.qw2[k] \div d  x == e.qx2[k] \div d  y == e.qy2[k] \div d IN
              A0(w * w - x * x - y * y) <= 8 * w + 8>>,
         <<"C12:prescribed-discharge-at-the-inlet", \A k \in InletCells(e) :
              Near(e.qx2[k], e.qw0, 1) /\ e.qy2[k] = 0 /\ Near(e.qw2[k], e.qw0, 1)>>}
IterClauses(e) ==
    StageClause(e) \cup FlowClauses(e) \cup
    {<<"C12:stage-not-below-sea-level", \A k \in 1..N(e) : e.stage2[k] >= e.sl - 1>>,
     <<"C12:depth-is-stage-minus-bed", \A k \in 1..N(e) : Near(e.depth2[k], Max(e.stage2[k] - e.eta[k], 0), 2)>>,
     <<"C12:bed-untouched-by-water", e.etaSame>>,
     <<"C12:velocity-is-discharge-over-depth", \A k \in 1..N(e) :
          VelOK(e.uw2[k], e.dmm[k], e.q4[k], e.cap, e.wet2[k])>>,
     <<"C12:velocity-along-the-discharge", \A k \in 1..N(e) : (e.wet2[k] # 2 /\ e.qw2[k] > 3) =>
          LET d == Shrink(e, k)  w == e.qw2[k] \div d  u == e.uw2[k] \div d IN
          /\ A0((e.ux2[k] \div d) * w - u * (e.qx2[k] \div d)) <= 3 * (u + w) + 3
          /\ A0((e.uy2[k] \div d) * w - u * (e.qy2[k] \div d)) <= 3 * (u + w) + 3>>,
     <<"C12:dry-cells-have-no-velocity", \A k \in 1..N(e) : e.wet2[k] = 0 => (e.uw2[k] = 0 /\ e.ux2[k] = 0 /\ e.uy2[k] = 0)>>}
EndClauses(e) ==
    {<<"C12:prescribed-depth-at-the-inlet", \A k \in InletCells(e) : Near(e.depth[k], e.h0, 1)
                                             /\ Near(e.stage[k] - e.eta[k], e.h0, 2)>>,
     <<"C12:stage-not-below-sea-level", \A k \in 1..N(e) : e.stage[k] >= e.sl - 1>>,
     <<"C12:depth-is-stage-minus-bed", \A k \in 1..N(e) : Near(e.depth[k], Max(e.stage[k] - e.eta[k], 0), 2)>>}
FloodClauses(e) ==
    LET f == [wet |-> e.wet, stage |-> e.stage, eta |-> e.eta] IN
    {<<"C12:flooding-correction-raises-to-the-highest-wet-neighbour",
       \A k \in 1..N(e) : Floods(e, f, k - 1) => e.stage2[k] = FloodAt(e, f, k - 1)>>,
     <<"C12:flooding-correction-changes-nothing-else",
       e.restSame /\ \A k \in 1..N(e) : ~Floods(e, f, k - 1) => e.stage2[k] = e.stage[k]>>}
Put(S) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in S}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> UNCHANGED bad
          [] e.ev = "iter" -> Put(Fails(IterClauses(e)))
          [] e.ev = "end" -> Put(Fails(EndClauses(e)))
          [] e.ev = "flood" -> Put(Fails(FloodClauses(e)))
          [] e.ev = "error" -> Put({"no-failure:" \o e.exc})
          [] OTHER -> Put({"unknown-event"})
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_vars
=============================================================================
