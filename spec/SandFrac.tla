------------------------------ MODULE SandFrac ------------------------------
(* A cell over many timesteps of every kind.                                *)
EXTENDS SandFracOps
CONSTANTS Mixes, BC, Steps
VARIABLES c, last, n, w
vars == <<c, last, n, w>>
Ws == [recv : {0, 1}, deg : {0, 1}, deep : {0, 1}, mix : Mixes]
Init == c = [sf |-> BC, al |-> BC] /\ last = BC /\ n = 0 /\ w \in Ws
Next == /\ n < Steps /\ n' = n + 1
        /\ c' \in After(c, w, BC)
        /\ last' = IF w.recv = 1 THEN w.mix ELSE last
        /\ w' \in Ws
Spec == Init /\ [][Next]_vars
Bounded == c.sf \in 0..1000000 /\ c.al \in 0..1000000
\* the active layer is the composition of the last deposit ever made there
Remembers == c.al = last
\* a sand fraction is that of some deposit made there, or the boundary value
Known == c.sf = BC \/ c.sf \in Mixes
OnlyBed == [][(w.recv = 0 /\ w.deg = 0) => c' = c]_vars
FromBelow == [][(w.recv = 0 /\ w.deg = 1) => (c'.al = c.al /\ c'.sf = IF w.deep = 1 THEN BC ELSE last)]_vars
=============================================================================
