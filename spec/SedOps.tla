------------------------------- MODULE SedOps -------------------------------
(* A sediment parcel exchanging volume with the bed, and the diffusion of   *)
(* the bed. Volumes are given as heights over one cell, in 1e-5 m. Fields   *)
(* are sequences (cell i at i+1).                                           *)
EXTENDS WalkOps, SequencesExt, FiniteSetsExt

A0(i) == IF i < 0 THEN -i ELSE i
\* a * b / 10000 without leaving TLC's integers (b up to 10 million)
Per10k(a, b) == LET s == IF a < 0 THEN -1 ELSE 1  p == A0(a)  r == p % 10000 IN
                s * (((p \div 10000) * b) + ((r * (b \div 100)) \div 100) + ((r * (b % 100)) \div 10000))
Quarter(d) == A0(d) \div 4

(* ---- how much one exchange moves; d: stage minus bed ---- *)
Deposit(want, d) == IF d < 0 THEN 0 ELSE Min(want, Quarter(d))
Erode(want, d) == Min(want, Quarter(d))

(* a cell c = [d, qs, cap, es, me]: load qs and transport capacity cap in   *)
(* 1e-4 of the flux of half a parcel, es = (u/u_ero)^beta - 1 in 1e-4, me   *)
(* the local erosion factor in 1/1000. vol: carried, V: size of a parcel.   *)
SandDelta(vol, V, c, load) ==
    LET dep == Deposit(vol, c.d)
        ero == -Erode(Per10k((V * c.me) \div 1000, Max(c.es, 0)), c.d)
        mayDep == load > c.cap - c.fuzz
        mayNot == load <= c.cap + c.fuzz
    IN  (IF mayDep THEN {dep} ELSE {})
        \cup (IF mayNot /\ c.es > 0 THEN {ero} ELSE {})
        \cup (IF mayNot /\ (c.es <= 0 \/ (mayDep /\ mayNot)) THEN {0} ELSE {})
(* dm = 1 - (u/u_dep)^beta, em = (u/u_ero)^beta - 1 in 1e-4; lam in 1/1000 *)
MudDelta(vol, V, c, lam) ==
    IF c.em > 0 THEN {-Erode(Per10k((V * c.me) \div 1000, c.em), c.d)}
    ELSE IF c.dm > 0 THEN {Deposit(Per10k((vol * lam) \div 1000, c.dm), c.d)}
    ELSE {0}

(* ---- where a parcel may go from p: downflow into wet cells, else to any  *)
(* cell that is no land. f = [type, wet, qx, qy, on]                        *)
Along(g, f, p, t) == f.qx[p + 1] * (Row(g, t) - Row(g, p)) + f.qy[p + 1] * (Col(g, t) - Col(g, p))
Surely(g, f, p) == {t \in Open(g, p) : f.wet[t + 1] = 1 /\ f.on[t + 1] = 1 /\ Along(g, f, p, t) > 2}
Perhaps(g, f, p) == {t \in Open(g, p) : f.wet[t + 1] # 0 /\ f.on[t + 1] = 1 /\ Along(g, f, p, t) >= -2}
Nexts(g, f, p) == IF Surely(g, f, p) # {} THEN Perhaps(g, f, p)
                  ELSE Open(g, p)

(* ---- topographic diffusion, w: strength times flux in 1/1000 ---- *)
Clamp(x, n) == IF x < 0 THEN 0 ELSE IF x > n - 1 THEN n - 1 ELSE x
Offs == <<<<-1, -1>>, <<-1, 0>>, <<-1, 1>>, <<0, -1>>, <<0, 1>>, <<1, -1>>, <<1, 0>>, <<1, 1>>>>
NbrD(g, i, d) == Clamp(Row(g, i) + Offs[d][1], g.L) * g.W + Clamp(Col(g, i) + Offs[d][2], g.W)
\* what cell j gives to cell i
Gives(w, eta, j, i) == (w[i + 1] + w[j + 1]) * (eta[j + 1] - eta[i + 1])
Held(g, i) == Type(g, i) = -2 \/ Row(g, i) = 0
Gets(g, w, eta, i) == FoldSet(LAMBDA d, acc : acc + Gives(w, eta, NbrD(g, i, d), i), 0, 1..8)
Diffuse(g, w, eta) == [k \in 1..(g.L * g.W) |->
    LET i == k - 1 IN
    IF Held(g, i) THEN eta[k]
    ELSE eta[k] + Gets(g, w, eta, i) \div 1000]
RECURSIVE DiffuseN(_, _, _, _)
DiffuseN(g, w, eta, n) == IF n = 0 THEN eta ELSE DiffuseN(g, w, Diffuse(g, w, eta), n - 1)
=============================================================================
