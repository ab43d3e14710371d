------------------------------- MODULE LogGen -------------------------------
(* Histories of Log, printed for replay (TLC simulation mode).              *)
EXTENDS Log, Json, TLC, Randomization
CONSTANT Depth
VARIABLE h
gvars == <<vars, h>>
GInit == Init /\ h = <<>>
Did(o) == h' = Append(h, o)
Op(o) == [op |-> o, v |-> v']
\* a message of the user's own, at some level
Note == /\ pc = "ready" /\ LET k == RandomElement(0..3) IN
           h' = Append(h, [op |-> "note", v |-> k]) /\ UNCHANGED vars
GNext ==
  LET k == RandomElement(1..14) IN
  IF pc = "none" /\ seg = <<>> THEN Start /\ Did(Op("start"))
  ELSE IF pc # "ready" THEN (IF ck >= 0 THEN Resume /\ Did(Op("resume")) ELSE UNCHANGED gvars)
  ELSE IF k <= 6 /\ n < MaxN THEN Step /\ Did(Op("step"))
  ELSE IF k <= 8 /\ ck < n THEN Save /\ Did(Op("save"))
  ELSE IF k = 9 /\ ck >= 0 THEN End /\ Did(Op("end"))
  ELSE IF k = 10 /\ ck >= 0 THEN Kill /\ Did(Op("kill"))
  ELSE IF k = 11 /\ ck >= 0 THEN pc' = "none" /\ UNCHANGED <<log, log2, out, out2, v, n, ck, seg, done>> /\ Did(Op("fail"))
  ELSE IF k = 12 /\ v < MaxV THEN Louder /\ Did(Op("louder"))
  ELSE Note
GSpec == GInit /\ [][GNext]_gvars
Emit == (TLCGet("level") = Depth) => PrintT("SCN " \o ToJson([h |-> h]))
=============================================================================
