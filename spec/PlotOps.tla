------------------------------ MODULE PlotOps -------------------------------
(* What the diagnostic plots put on the canvas. A cell is drawn at its      *)
(* column (horizontal) and row (vertical); it is given as a flat index,     *)
(* row by row, or as a pair. A hidden vertex of a line is HIDDEN.           *)
EXTENDS Integers, Sequences
HIDDEN == <<-1, -1>>
Ravel(r, c, W) == r * W + c
Unravel(i, W) == <<i \div W, i % W>>
\* [k, a, b]: k = "flat" (index a) or "pair" (row a, column b)
CellOf(x, W) == IF x.k = "flat" THEN Unravel(x.a, W) ELSE <<x.a, x.b>>
\* positions <<horizontal, vertical>> on the canvas
At(rc) == <<rc[2], rc[1]>>
Marks(cells, W) == [i \in 1..Len(cells) |-> At(CellOf(cells[i], W))]
Vertex(i, W, nozeros) == IF i = 0 /\ nozeros THEN HIDDEN ELSE At(Unravel(i, W))
FlatLine(s, W, nozeros) == [i \in 1..Len(s) |-> Vertex(s[i], W, nozeros)]
\* pairs of a line are <<horizontal, vertical>>
PairLine(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
\* every line asked for, in the order given
Lines(form, data, W, nozeros) ==
    IF form = "pairs" THEN <<PairLine(data[1])>>
    ELSE [i \in 1..Len(data) |-> FlatLine(data[i], W, nozeros)]
\* the picture of a field: its rows downwards from the top
Extent(L, W) == <<-5, 10 * W - 5, 10 * L - 5, -5>>
=============================================================================
