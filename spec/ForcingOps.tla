----------------------------- MODULE ForcingOps -----------------------------
(* Clock, sea level and subsidence. Times in half seconds, lengths in       *)
(* 2^-20 m, rates in 2^-20 m/s (even, so that everything is an integer).    *)
(* c = [on, start, rate, slr, sl0, dt]: the configuration                   *)
(* s = [t, it, sl, slr, dt]: clock, sea level, current rate and timestep    *)
EXTENDS Integers, Sequences

Begin(c) == [t |-> 0, it |-> 0, sl |-> c.sl0, slr |-> c.slr, dt |-> c.dt]
Subsides(c, s) == c.on /\ s.t >= c.start
Sink(c, s) == IF Subsides(c, s) THEN (c.rate * s.dt) \div 2 ELSE 0
Step(c, s) == [s EXCEPT !.t = @ + s.dt, !.it = @ + 1, !.sl = @ + (s.slr * s.dt) \div 2]
\* a resumed run has the state of the checkpoint and the configured rates
Resume(c, s) == [s EXCEPT !.slr = c.slr, !.dt = c.dt]
=============================================================================
