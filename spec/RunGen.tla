------------------------------- MODULE RunGen -------------------------------
(* Behaviours of Run, printed for replay into the implementation (TLC       *)
(* simulation mode). A behaviour is a list of what happened: "u" a complete *)
(* timestep, "x:<pc>" a crash at that point, "r" a completed resumption.    *)
EXTENDS Run, TLC, Json
VARIABLE hist
CONSTANT Depth
Log(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
GNext == \/ Construct /\ Log("b")
         \/ (DoSolve \/ DoAdvance \/ DoOutData \/ BeginCk) /\ UNCHANGED hist
         \/ (EndCk \/ NoCkDue) /\ Log("u")
         \/ pc # "new" /\ RandomElement(1..8) = 1 /\ Die /\ Log("x:" \o pc)
         \/ (Read \/ Copy) /\ UNCHANGED hist
         \/ (Replace \/ NoCopy) /\ Log("r")
Emit == (TLCGet("level") = Depth) =>
            PrintT("SCN " \o ToJson([c |-> cf, h |-> hist]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
=============================================================================
