------------------------------ MODULE JobsOps -------------------------------
(* Jobs of one input: what may happen to each and what is reported.         *)
(* A fault is where a job fails: "none", "run" (before timestep k), "final" *)
(* (while finalizing), "both", "init" (while its output is prepared in its  *)
(* own process) or "other" (an error of a kind that is not handled).        *)
EXTENDS Integers, Sequences, FiniteSets

Fresh == [st |-> "new", steps |-> 0, fin |-> 0, starts |-> 0]

RunFails(f)   == f \in {"run", "both", "init", "other"}
FinalFails(f) == f \in {"final", "both"}

\* messages a job sends: <<stage, ok>>
Messages(f) == <<(IF RunFails(f) THEN <<1, FALSE>> ELSE <<1, TRUE>>),
                 (IF FinalFails(f) THEN <<2, FALSE>> ELSE <<2, TRUE>>)>>
ReportedFailed(f) == RunFails(f) \/ FinalFails(f)
ReportedDone(f)   == ~RunFails(f)

\* whether jobs are only set up: asked for in the file, or where the run is
\* asked for, which prevails ("-": not mentioned)
Dry(file, over) == IF over # "-" THEN over = "yes" ELSE file = "yes"

Running(js) == {j \in DOMAIN js : js[j].st = "running"}
=============================================================================
