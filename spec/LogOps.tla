------------------------------- MODULE LogOps -------------------------------
(* The log of a run. An entry is <<kind, value, level>>; an entry of level   *)
(* k is written when the model is at least that verbose. What the record of  *)
(* a run consists of has level 0: the configuration and the seed when the    *)
(* run starts, the clock when a model is ready and after each timestep.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Write(log, e, v) == IF e[3] <= v THEN Append(log, e) ELSE log
RECURSIVE WriteAll(_, _, _)
WriteAll(log, es, v) == IF es = <<>> THEN log ELSE WriteAll(Write(log, Head(es), v), Tail(es), v)

Time(n) == <<"time", n, 0>>
\* what the construction of a model writes
Opening(resume, conf, seed, n) ==
    <<<<"head", 0, 0>>>>
    \o (IF resume THEN <<>> ELSE [i \in 1..Len(conf) |-> <<"conf", conf[i], 0>>])
    \o <<<<"seed", seed, 0>>, <<"setting-up", 0, 1>>, <<"ready", 0, 0>>, Time(n)>>
\* what a completed timestep writes, n being the clock after it
Stepping(n) == <<<<"routing", n, 2>>, Time(n)>>
\* the clock goes to the standard output too, of all but the quietest model
Prints(v, n) == IF v > 0 THEN <<n>> ELSE <<>>

Kind(log, k) == SelectSeq(log, LAMBDA e : e[1] = k)
Values(s) == [i \in 1..Len(s) |-> s[i][2]]
\* a is obtained from b by leaving entries out
LeavesOut(a, b) ==
    FoldLeft(LAMBDA i, x : IF i < Len(a) /\ a[i + 1] = x THEN i + 1 ELSE i, 0, b) = Len(a)
=============================================================================
