---------------------------- MODULE DurationOps -----------------------------
(* How long a job runs. Times are integers in 1/1024 s; -1 means "not       *)
(* given"; the intermittency factor is given in eighths.                    *)
EXTENDS Integers, Sequences

Keys == {"ts", "sec", "yr"}
Given(d) == \E k \in Keys : d[k] # -1

\* a duration on the command line or as a keyword replaces any in the file
Effective(file, over) ==
    [k \in {"ts", "sec", "yr", "If8"} |->
        IF k = "If8" THEN (IF over.If8 # -1 THEN over.If8 ELSE IF file.If8 # -1 THEN file.If8 ELSE 8)
        ELSE IF Given(over) THEN over[k] ELSE file[k]]

Refused(eff) == ~Given(eff)

\* timesteps win over seconds, seconds over years
Kind(eff) == IF eff.ts # -1 THEN "ts" ELSE IF eff.sec # -1 THEN "sec" ELSE "yr"
\* the length of the run in 1/1024 s (sec and yr are multiples of 8)
Length(eff) == IF Kind(eff) = "sec" THEN (eff.sec \div 8) * eff.If8 ELSE (eff.yr \div 8) * eff.If8

Ended(eff, dt, n) == IF Kind(eff) = "ts" THEN n >= eff.ts ELSE n * dt >= Length(eff)

RECURSIVE StepsFrom(_, _, _)
StepsFrom(eff, dt, n) == IF Ended(eff, dt, n) THEN n ELSE StepsFrom(eff, dt, n + 1)
Steps(eff, dt) == StepsFrom(eff, dt, 0)
=============================================================================
