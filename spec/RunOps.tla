------------------------------- MODULE RunOps -------------------------------
(* The life of one model run: clock, output schedule, checkpoint schedule,  *)
(* the files on disk, crashes at any point, and resuming.                   *)
(*                                                                          *)
(* One action per step of the implementation: the timestep is split into    *)
(* its parts (solve, advance the clock, output a record, write a            *)
(* checkpoint), so that a crash can fall between any two of them; resuming  *)
(* is split likewise (read the checkpoint, copy the output file aside,      *)
(* put the copy in place).                                                  *)
(*                                                                          *)
(* The physical state after n timesteps is abstracted to n itself: the same *)
(* run always goes through the same states, which is what the trace         *)
(* specification checks against digests recorded from the reference run.    *)
EXTENDS Integers, Sequences

INF == 1900000000
Plus(a, d) == IF a >= INF THEN INF ELSE a + d

(* A configuration c has: dt, save, ck (intervals), ckOn (checkpointing),   *)
(* nc (an output file is kept); from timestep sw on, the length of a        *)
(* timestep is dt2 (the user changes it while the model runs).              *)
Dt(c, it) == IF it < c.sw THEN c.dt ELSE c.dt2

NoCk == [has |-> FALSE, t |-> 0, it |-> 0, sd |-> 0, si |-> 0, phys |-> 0]

(* ------------------------ pure transition functions -------------------- *)
Blank == [t |-> 0, it |-> 0, sd |-> INF, sc |-> INF, si |-> 0, phys |-> 0,
          recs |-> <<>>, ckpt |-> NoCk]

\* put value v at 1-based position i of s (append if i = Len(s)+1)
PutAt(s, i, v) == IF i <= Len(s) THEN [s EXCEPT ![i] = v] ELSE Append(s, v)

DueData(c, s) == s.sd >= c.save
DueCk(c, s)   == c.ckOn /\ s.sc >= c.ck

Solve(c, s)   == [s EXCEPT !.phys = @ + 1]
Advance(c, s) == LET d == Dt(c, s.it) IN
    [s EXCEPT !.t = @ + d, !.it = @ + 1, !.sd = Plus(@, d), !.sc = Plus(@, d)]
OutData(c, s) ==
    IF DueData(c, s)
    THEN [s EXCEPT !.recs = IF c.nc THEN PutAt(@, s.si + 1, [t |-> s.t, phys |-> s.phys]) ELSE @,
                   !.si = @ + 1, !.sd = 0]
    ELSE s
Snapshot(s)   == [has |-> TRUE, t |-> s.t, it |-> s.it, sd |-> s.sd,
                  si |-> s.si, phys |-> s.phys]
OutCk(c, s) ==
    IF DueCk(c, s) THEN [s EXCEPT !.ckpt = Snapshot(s), !.sc = 0] ELSE s

Boot(c)      == OutCk(c, OutData(c, Blank))
Update(c, s) == OutCk(c, OutData(c, Advance(c, Solve(c, s))))
\* resuming keeps what is on disk, takes the rest from the checkpoint; the
\* time since the last checkpoint is not kept: the next step writes one
Load(c, s)   == [s EXCEPT !.t = s.ckpt.t, !.it = s.ckpt.it, !.sd = s.ckpt.sd,
                          !.si = s.ckpt.si, !.phys = s.ckpt.phys, !.sc = INF]
\* ... and if the output file is not where it is expected, a new one begins
LoadNew(c, s) == [Load(c, s) EXCEPT !.si = 0, !.recs = <<>>]

\* the uninterrupted run after n timesteps
RECURSIVE Ref(_, _)
Ref(c, n) == IF n = 0 THEN Boot(c) ELSE Update(c, Ref(c, n - 1))

\* what the state of the run is as far as its continuation is concerned
Core(s) == [t |-> s.t, it |-> s.it, sd |-> s.sd, si |-> s.si, phys |-> s.phys]

=============================================================================
