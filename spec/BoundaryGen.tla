---------------------------- MODULE BoundaryGen -----------------------------
(* Histories of Boundary, printed for replay (TLC simulation mode).         *)
EXTENDS Boundary
CONSTANT Depth
Emit == (TLCGet("level") = Depth) => PrintT("SCN " \o ToJson([k |-> k, c0 |-> c0, h |-> hist]))
=============================================================================
