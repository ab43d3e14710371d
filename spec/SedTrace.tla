------------------------------ MODULE SedTrace ------------------------------
(* Recorded steps of sediment parcels, diffusion and whole timesteps.       *)
EXTENDS SedOps, TraceLib
VARIABLES l, bad, s          \* s: the parcel being followed
vars == <<l, bad, s>>
None == [on |-> FALSE]
TInit == l = 1 /\ bad = {} /\ s = None

(* ---- one parcel, step by step ----                                       *)
(* The position of a parcel is not always visible: keep every cell at which *)
(* it may be. Each step lists the cells that changed with their new values. *)
Start(e) == [on |-> TRUE, g |-> e, pos |-> ToSet(e.inlet), vol |-> e.V, first |-> TRUE,
             eta |-> e.eta, stage |-> e.stage, qs |-> e.qs, cap |-> e.cap, es |-> e.es, em |-> e.em, dm |-> e.dm,
             wet |-> e.wet, uw |-> e.uw, dep |-> e.dep, lost |-> FALSE]
Flow(t) == [type |-> t.g.type, wet |-> t.wet, qx |-> t.g.qx, qy |-> t.g.qy, on |-> t.g.sw]
At(t, i) == [d |-> t.stage[i + 1] - t.eta[i + 1], qs |-> t.qs[i + 1], cap |-> t.cap[i + 1], es |-> t.es[i + 1],
             em |-> t.em[i + 1], dm |-> t.dm[i + 1], me |-> t.g.me[i + 1], fuzz |-> 6 + t.cap[i + 1] \div 20000]
Half(t) == Per10k(t.vol, (100000000 \div t.g.V)) \div 1             \* carried volume, in 1e-4 parcels
Tol(x) == 12 + A0(x) \div 3000
Cells(e) == {e.ch[k].i : k \in 1..Len(e.ch)}
Chg(e, i) == CHOOSE c \in {e.ch[k] : k \in 1..Len(e.ch)} : c.i = i
DEta(t, e, i) == IF i \in Cells(e) THEN Chg(e, i).eta - t.eta[i + 1] ELSE 0
DQs(t, e, i) == IF i \in Cells(e) THEN Chg(e, i).qs - t.qs[i + 1] ELSE 0
\* other than in the flux of sand, a step changes one cell
Touched(t, e) == {i \in Cells(e) : Chg(e, i).other}
Sand(t) == t.g.kind = "sand"
\* the step p -> q explains what was seen
FluxSeen(t, e, p, q) ==
    LET h == Half(t)
        want(i) == (IF i = p THEN (IF t.first THEN h + 10000 ELSE h) ELSE 0) + (IF i = q THEN h ELSE 0)
    IN  \A i \in Cells(e) \cup {p, q} : Near(DQs(t, e, i), want(i), 6 + want(i) \div 1000)
Moves(t, e, p, q) ==
    /\ Touched(t, e) \subseteq {q}
    /\ IF Sand(t) THEN FluxSeen(t, e, p, q) ELSE \A i \in Cells(e) : DQs(t, e, i) = 0
Exchanges(t, e, q) ==
    LET c == At(t, q)
        load == t.qs[q + 1] + DQs(t, e, q)
        D == IF Sand(t) THEN SandDelta(t.vol, t.g.V, c, load) ELSE MudDelta(t.vol, t.g.V, c, t.g.lam)
    IN  \E d \in D : Near(DEta(t, e, q), d, Tol(d))
Edge(t, p) == Type(t.g, p) = -1
Going(t) == {p \in t.pos : ~Edge(t, p)}
Pairs(t) == LET f == Flow(t) IN UNION {{<<p, q>> : q \in Nexts(t.g, f, p)} : p \in Going(t)}
Moved(t, e) == {pq \in Pairs(t) : Moves(t, e, pq[1], pq[2])}
Landed(t, e, mv) == {q \in {pq[2] : pq \in mv} : Exchanges(t, e, q)}
Rested(t, e) == IF e.ch = <<>> THEN {p \in t.pos : Edge(t, p)} ELSE {}
\* velocity u times depth (1e-3 m) is the discharge q, up to the cap (1e-4);
\* great depths with fewer digits, to stay within TLC's integers
VelIs(u, dmm, q, cap) ==
    LET k == IF dmm <= 25000 THEN 1 ELSE IF dmm <= 250000 THEN 10 ELSE IF dmm <= 2500000 THEN 100 ELSE 1000
        dm == dmm \div k
        tol == (dm + u) \div 2 + 2000 + (IF k > 1 THEN u ELSE 0)
    IN  /\ u >= 0 /\ u <= cap + 1 /\ dm <= 25000 /\ IsNum(q)
        /\ IF q > 2000000 * k THEN u >= cap - 1              \* more than the cap in any case
           ELSE LET Q == q * (1000 \div k) IN
                A0(u * dm - Q) <= tol \/ (u >= cap - 1 /\ Q >= cap * dm - tol)
VelMatches(t, c) ==
    LET d == t.stage[c.i + 1] - c.eta           \* 1e-5 m
    IN  IF d <= 0 THEN c.uw = t.uw[c.i + 1]
        ELSE IF d < 500 THEN TRUE
        ELSE VelIs(c.uw, c.dmm, t.g.qw[c.i + 1], t.g.cap4)
ParcelClauses(t, e, mv, ld, rs) ==
    {<<"C13:parcel-moves-to-a-neighbouring-cell-open-to-it", mv # {} \/ rs # {}>>,
     <<"C13:exchange-follows-the-transport-rules", mv = {} \/ ld # {} \/ rs # {}>>,
     <<"C13:one-cell-per-step", Cardinality(Touched(t, e)) <= 1>>,
     <<"C13:at-most-a-quarter-of-the-depth", \A i \in Cells(e) :
          A0(DEta(t, e, i)) <= Quarter(t.stage[i + 1] - t.eta[i + 1]) + 3>>,
     <<"C13:no-deposit-above-the-water", \A i \in Cells(e) : t.stage[i + 1] < t.eta[i + 1] => DEta(t, e, i) <= 2>>,
     <<"C13:land-never-changes", \A i \in Cells(e) : Type(t.g, i) # -2>>,
     <<"C13:deposits-are-accounted", \A i \in Cells(e) :
          Near(Chg(e, i).dep - t.dep[i + 1], Max(DEta(t, e, i), 0), 4)>>,
     <<"C13:the-other-kind-not-accounted", e.otherDep>>,
     <<"C13:never-gives-more-than-it-carries", \A i \in Cells(e) : DEta(t, e, i) <= t.vol + 3>>,
     <<"C13:depth-matches-bed", \A i \in Touched(t, e) :
          Near(Chg(e, i).depth, Max(t.stage[i + 1] - Chg(e, i).eta, 0), 2)>>,
     <<"C13:velocity-matches-depth", \A i \in Touched(t, e) : VelMatches(t, Chg(e, i)) /\ Chg(e, i).dirOK>>}
Set(sq, e, f(_)) == FoldSeq(LAMBDA c, acc : [acc EXCEPT ![c.i + 1] = f(c)], sq, e.ch)
Advance(t, e, ps) ==
    LET nd == FoldSeq(LAMBDA c, acc : acc + c.eta - t.eta[c.i + 1], 0, e.ch)
    IN  [t EXCEPT !.pos = IF ps = {} THEN @ ELSE ps, !.vol = Max(@ - nd, 0), !.first = FALSE,
           !.eta = Set(@, e, LAMBDA c : c.eta), !.qs = Set(@, e, LAMBDA c : c.qs),
           !.cap = Set(@, e, LAMBDA c : c.cap), !.es = Set(@, e, LAMBDA c : c.es),
           !.em = Set(@, e, LAMBDA c : c.em), !.dm = Set(@, e, LAMBDA c : c.dm),
           !.wet = Set(@, e, LAMBDA c : c.wet), !.uw = Set(@, e, LAMBDA c : c.uw), !.dep = Set(@, e, LAMBDA c : c.dep),
           !.lost = @ \/ ps = {}]

(* ---- number of parcels; f in 1/1000 ---- *)
CountOK(n, num) == n = num \div 1000 \/ (num % 1000 = 0 /\ n = num \div 1000 - 1)
CountClauses(e) ==
    {<<"C13:sand-parcels-follow-the-bedload-fraction", CountOK(e.nsand, e.np * e.f)>>,
     <<"C13:mud-parcels-follow-the-bedload-fraction", CountOK(e.nmud, e.np * (1000 - e.f))>>,
     <<"C13:whole-parcels", e.whole>>,
     <<"C13:parcels-start-at-the-inlet", e.startOK>>}

(* ---- diffusion ---- *)
DiffClauses(e) ==
    LET want == DiffuseN(e, e.w, e.eta, e.n) IN
    {<<"C13:diffusion-exchanges-between-neighbours",
       \A k \in 1..(e.L * e.W) : Held(e, k - 1) \/ Near(e.eta2[k], want[k], e.tol)>>,
     <<"C13:diffusion-leaves-land-and-inlet-row", \A k \in 1..(e.L * e.W) : Held(e, k - 1) => e.same[k] = 1>>,
     <<"C13:diffusion-changes-the-bed-only", e.restSame>>}

(* ---- a whole timestep: fields around each stage of sediment routing ---- *)
StageClauses(e) ==
    {<<"C13:fluxes-and-deposits-start-from-zero", e.zero>>,
     <<"C13:land-never-changes", \A k \in 1..Len(e.ch) : e.ch[k].type # -2>>,
     <<"C13:adds-at-most-what-came-in", FoldSeq(LAMBDA c, acc : acc + c.deta, 0, e.ch) <= e.brought + 2 * Len(e.ch)>>,
     <<"C13:bed-rises-by-at-most-the-deposit", \A k \in 1..Len(e.ch) : e.ch[k].deta <= e.ch[k].ddep + 4>>,
     <<"C13:deposits-never-shrink", \A k \in 1..Len(e.ch) : e.ch[k].ddep >= 0>>,
     <<"C13:the-other-kind-not-accounted", e.otherSame>>,
     <<"C13:depth-matches-bed", \A k \in 1..Len(e.ch) :
          e.ch[k].moved => Near(e.ch[k].depth, Max(e.ch[k].stage - e.ch[k].eta, 0), 2)>>,
     <<"C13:velocity-matches-depth", \A k \in 1..Len(e.ch) :
          (e.ch[k].moved /\ e.ch[k].depth > 500) => VelIs(e.ch[k].uw, e.ch[k].dmm, e.ch[k].qw, e.cap4)>>}
Put(S) == bad' = bad \cup {[at |-> l, clause |-> x] : x \in S}
TNext ==
  \/ /\ l <= Len(Trace) /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> UNCHANGED <<bad, s>>
          [] e.ev = "parcel" -> s' = Start(e) /\ UNCHANGED bad
          [] e.ev = "step" -> IF s.lost THEN UNCHANGED <<bad, s>>
                              ELSE LET mv == Moved(s, e)  ld == Landed(s, e, mv)  rs == Rested(s, e) IN
                                   /\ Put(Fails(ParcelClauses(s, e, mv, ld, rs)))
                                   /\ s' = Advance(s, e, ld \cup rs)
          [] e.ev = "count" -> Put(Fails(CountClauses(e))) /\ UNCHANGED s
          [] e.ev = "diff" -> Put(Fails(DiffClauses(e))) /\ UNCHANGED s
          [] e.ev \in {"sandrun", "mudrun"} -> Put(Fails(StageClauses(e))) /\ UNCHANGED s
          [] e.ev = "error" -> Put({"no-failure:" \o e.exc}) /\ UNCHANGED s
          [] OTHER -> Put({"unknown-event"}) /\ UNCHANGED s
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<bad, s>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
