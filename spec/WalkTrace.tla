----------------------------- MODULE WalkTrace ------------------------------
(* Recorded walks of the water parcels of real timesteps.                   *)
(* "grid": the grid, where it is wet (1, 0, 2 on the verge) and the support *)
(* of the routing weights of every cell (sets of directions 0..8 around the *)
(* cell, row by row); "walk": what was recorded for one parcel.             *)
EXTENDS WalkOps, TraceLib
VARIABLES l, g, bad
vars == <<l, g, bad>>
TInit == l = 1 /\ g = 0 /\ bad = {}
Dir(i, d) == i + ((d \div 3) - 1) * g.W + ((d % 3) - 1)     \* (cell in direction d)
Sup(i) == {g.sup[i + 1][k] : k \in 1..Len(g.sup[i + 1])}
Within(h, i, d) == InGrid(h, (i \div h.W) + (d \div 3) - 1, (i % h.W) + (d % 3) - 1)

CellOK(h, i) ==
    LET S == {h.sup[i + 1][k] : k \in 1..Len(h.sup[i + 1])}
        cell(d) == i + ((d \div 3) - 1) * h.W + ((d % 3) - 1)
        In == {d \in 0..8 : d # 4 /\ Within(h, i, d)}
        T == S \cap In
        wet == {d \in In : h.type[cell(d) + 1] # -2 /\ h.wet[cell(d) + 1] = 1}
    IN  [stay |-> 4 \notin S,
         land |-> \A d \in T : h.type[cell(d) + 1] # -2,
         dry  |-> wet # {} => \A d \in T : h.wet[cell(d) + 1] # 0,
         out  |-> (i \div h.W > 0 /\ h.type[i + 1] # -1) => S \subseteq In,
         some |-> T # {}]
GridClauses(h) ==
    LET cells == {i \in 1..(h.L * h.W - 1) : h.type[i + 1] \notin {-2, -1}} IN
    {<<"C11:weights-nonnegative", h.nonneg>>,
     <<"C11:weights-sum-to-one", h.sumone>>,
     <<"C11:no-weight-on-staying", \A i \in cells : CellOK(h, i).stay>>,
     <<"C11:no-weight-on-land", \A i \in cells : CellOK(h, i).land>>,
     <<"C11:no-weight-on-dry-cells-while-there-are-wet-ones", \A i \in cells : CellOK(h, i).dry>>,
     <<"C11:no-weight-out-of-the-domain", \A i \in cells : CellOK(h, i).out>>,
     <<"C11:always-somewhere-to-go", \A i \in cells : CellOK(h, i).some>>}

\* cells a parcel at i may step to
Targets(i) == {Dir(i, d) : d \in {x \in Sup(i) : Within(g, i, x) /\ x # 4}} \cap Open(g, i)

\* follow a walk; result: the parcel and the clauses violated on the way
RECURSIVE Follow(_, _, _)
Follow(p, w, k) ==
    IF k > Len(w) THEN [p |-> p, bad |-> {}]
    ELSE IF p.gone
    THEN IF w[k] = 0 THEN Follow(p, w, k + 1)
         ELSE [p |-> p, bad |-> {"C11:a-parcel-that-left-is-never-moved-again"}]
    ELSE LET n == w[k]
             any == Results(g, p, Open(g, p.pos))
             may == Results(g, p, Targets(p.pos))
             okAny == \E r \in any : r.rec = n
             okMay == \E r \in may : r.rec = n
             wh == IF n < 0 \/ n >= g.L * g.W THEN "C11:inside-the-domain"
                   ELSE IF n = 0 THEN "C11:walks-until-the-edge"
                   ELSE IF Type(g, n) = -2 THEN "C11:never-onto-land"
                   ELSE IF n \in p.seen THEN "C11:relocated-when-returning"
                   ELSE IF n \notin Around(g, p.pos) THEN "C11:steps-to-a-neighbour-or-is-relocated"
                   ELSE "C11:steps-to-a-neighbour-or-is-relocated"
         IN  IF ~okAny THEN [p |-> p, bad |-> {wh}]
             ELSE IF ~okMay THEN [p |-> p, bad |-> {"C11:steps-only-where-there-is-weight"}]
             ELSE Follow(Move(g, p, may, n), w, k + 1)
WalkFails(e) ==
    IF e.w[1] \notin {g.inlet[k] : k \in 1..Len(g.inlet)} THEN {"C11:starts-at-an-inlet-cell"}
    ELSE LET f == Follow(Born(e.w[1], g), e.w, 2) IN
         IF f.bad # {} THEN f.bad
         ELSE Fails({<<"C11:walks-until-the-edge-or-the-last-step", f.p.gone \/ Len(e.w) - 1 = g.stepmax>>,
                     <<"C11:never-more-than-the-last-step", Len(e.w) - 1 <= g.stepmax>>,
                     <<"C11:counts-unless-it-looped-above-sea-level",
                       (e.flag = 0 => f.p.may) /\ (e.flag # 0 => ~f.p.must)>>})
Put(S) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in S}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> UNCHANGED <<g, bad>>
          [] e.ev = "grid" -> g' = e /\ Put(Fails(GridClauses(e)))
          [] e.ev = "walk" -> Put(WalkFails(e)) /\ UNCHANGED g
          [] e.ev = "error" -> Put({"no-failure:" \o e.exc}) /\ UNCHANGED g
          [] OTHER -> Put({"unknown-event"}) /\ UNCHANGED g
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<g, bad>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
