------------------------------ MODULE OutputGen -----------------------------
(* Random option sets and histories of Output, printed for replay (TLC      *)
(* simulation mode). The options are picked in a first step, since the set  *)
(* of all of them is too large to enumerate as initial states.              *)
EXTENDS Output, Randomization
CONSTANT Depth
VARIABLE o0
B(x) == RandomElement({TRUE, FALSE})
GInit == /\ pc = "pick" /\ s = Blank /\ hist = <<>> /\ saves = <<>>
         /\ o = [dt |-> 0] /\ o0 = o
Pick == /\ pc = "pick" /\ pc' = "new"
        /\ o' = [on |-> RandomSubset(RandomElement(0..4), GridOpts)
                        \cup RandomSubset(RandomElement({0, 0, 1, 2}), FigOpts)
                        \cup (IF RandomElement(1..3) = 1 THEN {"save_metadata"} ELSE {}),
                 legacy |-> B(1), custom |-> B(2), sub |-> B(3), seqfig |-> B(4),
                 dt |-> RandomElement(Dts), save |-> RandomElement(Saves)]
        /\ o0' = o' /\ UNCHANGED <<s, hist, saves>>
GNext == \/ Pick
         \/ pc # "pick" /\ RandomElement(1..4) = 1 /\ Defer /\ UNCHANGED o0
         \/ pc # "pick" /\ (Boot \/ Late \/ Update) /\ UNCHANGED o0
         \/ pc # "pick" /\ RandomElement(1..3) = 1 /\ (SetSave \/ SetDt \/ Toggle \/ ToggleGrid) /\ UNCHANGED o0
Emit == (TLCGet("level") = Depth) => PrintT("SCN " \o ToJson([c |-> o0, h |-> hist]))
GSpec == GInit /\ [][GNext]_<<vars, o0>>
=============================================================================
