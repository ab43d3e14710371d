---------------------------- MODULE SandFracOps -----------------------------
(* Composition of the bed of one cell over a timestep. Shares of sand in    *)
(* 1e-6. c = [sf, al]: sand fraction and remembered active layer.           *)
(* w = [recv, deg, deep, mix]: the timestep left sediment there; lost bed   *)
(* elevation; and that beyond the active layer; share of sand received.     *)
(* Answers are 1, 0, or 2 for too close to call.                            *)
EXTENDS Integers

Received(c, w) == [sf |-> w.mix, al |-> w.mix]
Lost(c, w, bc) == (IF w.deep # 0 THEN {[sf |-> bc, al |-> c.al]} ELSE {})
                  \cup (IF w.deep # 1 THEN {[sf |-> c.al, al |-> c.al]} ELSE {})
Kept(c) == {c}
After(c, w, bc) ==
    (IF w.recv # 0 THEN {Received(c, w)} ELSE {})
    \cup (IF w.recv # 1 THEN (IF w.deg = 1 THEN Lost(c, w, bc) ELSE Kept(c)) ELSE {})
=============================================================================
