----------------------------- MODULE ForcingGen -----------------------------
(* Histories of Forcing, printed for replay (TLC simulation mode).          *)
EXTENDS Forcing
CONSTANT Depth
Emit == (TLCGet("level") = Depth) => PrintT("SCN " \o ToJson([c |-> c, h |-> hist]))
=============================================================================
