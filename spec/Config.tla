------------------------------- MODULE Config -------------------------------
(* The resolution as a machine (import the file, apply keywords, check      *)
(* types, assign, check ranges, only then write output), over every row of  *)
(* the table and every class of value from each source.                     *)
EXTENDS ConfigOps, TLC, Json, IOUtils, SequencesExt
VARIABLES it, pc, val, wrote
vars == <<it, pc, val, wrote>>
Classes == {"absent", "int", "float", "bool", "str", "None", "list", "neg", "zero", "big"}
\* classes that make sense for a row: ranges only where there is one
Sensible(k, c) ==
    /\ c \in {"neg", "zero", "big"} => Row(k).range # "any"
    /\ ~(c = "zero" /\ k = "C0_percent")               \* (no timestep length exists)
    /\ ~(c = "str" /\ k = "resume_checkpoint")            \* (needs a checkpoint: see C01)
    /\ c = "big" => Row(k).range = "unit"
Cases == {[k |-> k, kw |-> a, file |-> b] : k \in Names, a \in Classes, b \in Classes}
Useful == {c \in Cases : Sensible(c.k, c.kw) /\ Sensible(c.k, c.file)}
Src(k, c) ==
    LET num == IF "float" \in Row(k).types THEN "float" ELSE "int" IN
    [given |-> c # "absent", type |-> (IF c \in {"neg", "zero", "big"} THEN num ELSE c),
     tok |-> k \o ":" \o c, neg |-> c = "neg", zero |-> c = "zero", gt1 |-> c = "big", over |-> FALSE]
Item(c) == [k |-> c.k, kw |-> Src(c.k, c.kw), file |-> Src(c.k, c.file), nullMeans |-> ""]
Init == it \in {Item(c) : c \in Useful} /\ pc = "file" /\ val = "" /\ wrote = FALSE
FileRead == pc = "file" /\ pc' = "kw" /\ val' = (IF it.file.given THEN it.file.tok ELSE Row(it.k).def)
            /\ UNCHANGED <<it, wrote>>
Kw == pc = "kw" /\ pc' = "types" /\ val' = (IF it.kw.given THEN it.kw.tok ELSE val) /\ UNCHANGED <<it, wrote>>
Types == pc = "types" /\ pc' = (IF TypeOK(it) THEN "ranges" ELSE "TypeError") /\ UNCHANGED <<it, val, wrote>>
Ranges == pc = "ranges" /\ pc' = (IF RangeOK(it) THEN "output" ELSE "ValueError") /\ UNCHANGED <<it, val, wrote>>
Out == pc = "output" /\ pc' = "accepted" /\ wrote' = TRUE /\ UNCHANGED <<it, val>>
Next == FileRead \/ Kw \/ Types \/ Ranges \/ Out
Spec == Init /\ [][Next]_vars
RightOutcome == pc \in {"accepted", "TypeError", "ValueError"} => pc = Outcome(<<it>>)
RightValue == pc = "accepted" => val = Resolved(it)
NoOutputIfRefused == pc \in {"TypeError", "ValueError"} => ~wrote
=============================================================================
