-------------------------------- MODULE Plot --------------------------------
(* A canvas on which cells are marked and lines drawn, one after another.   *)
EXTENDS PlotOps, FiniteSets
CONSTANTS NL, NW, MaxOps
VARIABLES canvas, asked, field
vars == <<canvas, asked, field>>
Cells == {[k |-> "flat", a |-> i, b |-> 0] : i \in 0..(NL * NW - 1)}
         \cup {[k |-> "pair", a |-> r, b |-> c] : r \in 0..(NL - 1), c \in 0..(NW - 1)}
Walks == UNION {[1..n -> 0..(NL * NW - 1)] : n \in 1..2}
Init == canvas = <<>> /\ asked = <<>> /\ field = 7
Mark == \E x \in Cells :
          /\ canvas' = Append(canvas, Marks(<<x>>, NW))
          /\ asked' = Append(asked, [op |-> "mark", x |-> x, z |-> FALSE])
Draw == \E s \in Walks, z \in BOOLEAN :
          /\ canvas' = canvas \o Lines("flat", <<s>>, NW, z)
          /\ asked' = Append(asked, [op |-> "draw", x |-> s, z |-> z])
Next == Len(canvas) < MaxOps /\ (Mark \/ Draw) /\ UNCHANGED field
Spec == Init /\ [][Next]_vars
Inside == \A i \in 1..Len(canvas) : \A j \in 1..Len(canvas[i]) :
            canvas[i][j] = HIDDEN
            \/ (canvas[i][j][1] \in 0..(NW - 1) /\ canvas[i][j][2] \in 0..(NL - 1))
\* the canvas tells which cells were asked for
Faithful == \A i \in 1..Len(canvas) :
    IF asked[i].op = "mark"
    THEN LET p == canvas[i][1] x == asked[i].x
         IN IF x.k = "flat" THEN Ravel(p[2], p[1], NW) = x.a ELSE p = <<x.b, x.a>>
    ELSE \A j \in 1..Len(asked[i].x) :
           LET p == canvas[i][j] IN
           IF p = HIDDEN THEN asked[i].z /\ asked[i].x[j] = 0
           ELSE Ravel(p[2], p[1], NW) = asked[i].x[j]
OneEach == Len(canvas) = Len(asked)
Bijective == \A r \in 0..(NL - 1), c \in 0..(NW - 1) : Unravel(Ravel(r, c, NW), NW) = <<r, c>>
ReadOnly == field = 7
=============================================================================
