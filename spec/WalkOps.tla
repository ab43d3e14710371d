------------------------------ MODULE WalkOps -------------------------------
(* The walk of one water parcel over the grid. Cells are flat indices       *)
(* r * W + c; index 0 stands for "the parcel has left".                     *)
(* g = [L, W, L0, CTR, type, near, inlet]: grid; type and near are          *)
(*     sequences (cell i at i+1): type -2 land, -1 edge, 0 ocean, 1 channel;*)
(*     near: 1 water at sea level, 0 above it, 2 on the verge               *)
EXTENDS Integers, Sequences, FiniteSets

Row(g, i) == i \div g.W
Col(g, i) == i % g.W
Type(g, i) == g.type[i + 1]
InGrid(g, r, c) == r >= 0 /\ r < g.L /\ c >= 0 /\ c < g.W
Around(g, i) ==
    LET r == Row(g, i)  c == Col(g, i) IN
    {(r + d) * g.W + c + e : d \in {x \in -1..1 : r + x >= 0 /\ r + x < g.L},
                             e \in {x \in -1..1 : c + x >= 0 /\ c + x < g.W}} \ {i}
Open(g, i) == {j \in Around(g, i) : Type(g, j) # -2}
Beyond(g, i) == Row(g, i) >= g.L0

\* the integer nearest to 5 * f / sqrt(s), f <= sqrt(s) in size (never a tie)
Fifth(f, s) ==
    LET a == IF f < 0 THEN -f ELSE f
        k == CHOOSE k \in 0..5 : /\ (k = 0 \/ (2 * k - 1) * (2 * k - 1) * s < 100 * a * a)
                                 /\ (k = 5 \/ (2 * k + 1) * (2 * k + 1) * s > 100 * a * a)
    IN  IF f < 0 THEN -k ELSE k
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* where a parcel that looped at i is put
Reloc(g, i) ==
    LET r == Row(g, i)  c == Col(g, i)
        fx == r - 1     fy == c - g.CTR
        s == fx * fx + fy * fy
        pr == IF s = 0 THEN r ELSE r + Fifth(fx, s)
        pc == IF s = 0 THEN c ELSE c + Fifth(fy, s)
    IN  Min(g.L - 2, Max(pr, g.L0)) * g.W + Min(g.W - 2, Max(1, pc))

(* A parcel: pos (0 when it has left), seen (cells beyond the inlet), and   *)
(* what is known of its disqualification: may/must have looped above sea.   *)
Born(i, g) == [pos |-> i, seen |-> IF Beyond(g, i) THEN {i} ELSE {}, may |-> FALSE, must |-> FALSE,
               edge |-> FALSE, gone |-> FALSE]
\* what a step to the neighbouring cell t leads to: [to, rec, dis]
\*   to: where the parcel is put, rec: what is recorded, dis: disqualified
Result(g, p, t) ==
    IF t \notin p.seen THEN {[to |-> t, rec |-> t, dis |-> FALSE]}
    ELSE LET n == Reloc(g, t)
             hit == [to |-> n, rec |-> IF Type(g, n) = -1 THEN 0 ELSE n, dis |-> TRUE]
             free == [to |-> n, rec |-> n, dis |-> FALSE]
         IN  IF g.near[t + 1] = 0 THEN {hit} ELSE IF g.near[t + 1] = 1 THEN {free} ELSE {hit, free}
Results(g, p, T) == UNION {Result(g, p, t) : t \in T}
\* take the step that was recorded as n; R: the results that explain it
Move(g, p, R, n) ==
    LET E == {r \in R : r.rec = n}
        to == (CHOOSE r \in E : TRUE).to
        all == \A r \in E : r.dis
        any == \E r \in E : r.dis
        end == n = 0 \/ Type(g, n) = -1
    IN  [pos |-> IF end THEN 0 ELSE n,
         seen |-> IF n # 0 /\ Beyond(g, n) THEN p.seen \cup {n} ELSE p.seen,
         may |-> p.may \/ any, must |-> p.must \/ all,
         edge |-> (n # 0 /\ Type(g, n) = -1), gone |-> end]
=============================================================================
