------------------------------ MODULE RunTrace ------------------------------
(* Recorded runs of the implementation against RunOps.                      *)
(*                                                                          *)
(* "begin" carries the configuration and what was recorded from the         *)
(* uninterrupted reference run: digests of the state after each timestep    *)
(* (ref), its clock (reft, refsd, refsi), the random generator (rng), step  *)
(* fields (stp), its clock to the last bit (clk), its final records (frec) and the layout of its file.       *)
EXTENDS RunOps, TraceLib

VARIABLES l, cf, m, alive, bad
vars == <<l, cf, m, alive, bad>>

DummyCfg == [dt |-> 1, dt2 |-> 1, sw |-> 0, save |-> 1, ck |-> 1, ckOn |-> FALSE, nc |-> FALSE,
             ref |-> <<>>, reft |-> <<>>, refsd |-> <<>>, refsi |-> <<>>,
             clk |-> <<>>, rng |-> <<>>, stp |-> <<>>, frec |-> <<>>, layout |-> ""]

TInit == l = 1 /\ cf = DummyCfg /\ m = Blank /\ alive = FALSE /\ bad = {}

\* i-th element, or the last one (callers bound i where it matters)
At(seq, i) == IF i >= 1 /\ i <= Len(seq) THEN seq[i] ELSE seq[Len(seq)]

\* against the uninterrupted reference run, timestep by timestep (C01)
RefClauses(e) ==
    {<<"C01:clock-as-uninterrupted",
        e.it >= 0 /\ e.it < Len(cf.ref) /\ e.t = At(cf.reft, e.it + 1)
        /\ e.clk = At(cf.clk, e.it + 1)>>,
     <<"C01:state-as-uninterrupted", e.dig = At(cf.ref, e.it + 1)>>,
     <<"C01:random-stream-as-uninterrupted", e.rng = At(cf.rng, e.it + 1)>>,
     <<"C01:output-phase-as-uninterrupted",
        e.sd = At(cf.refsd, e.it + 1) /\ e.si = At(cf.refsi, e.it + 1)>>}
RefDisk(e) ==
    {<<"C01:records-as-uninterrupted",
        cf.nc => (e.ncOK /\ Len(e.recs) <= Len(cf.frec)
                  /\ \A i \in 1..Len(e.recs) : e.recs[i] = At(cf.frec, i))>>,
     <<"C01:layout-as-uninterrupted", (cf.nc /\ e.ncOK) => e.layout = cf.layout>>}

\* memory of the implementation against the expected state x
MemClauses(e, x) ==
    {<<"C09:clock", e.t = x.t>>,
     <<"C09:timestep-count", e.it = x.it>>,
     <<"C02:time-since-record", e.sd = x.sd>>,
     <<"C02:record-count", e.si = x.si>>} \cup RefClauses(e)

CkMemClauses(e, x) == {<<"C03:time-since-checkpoint", e.sc = x.sc>>}

\* the disk against the expected state x
DiskClauses(e, x) ==
    {<<"C03:output-file-readable", e.ncOK>>,
     <<"C03:checkpoint-readable", e.ckOK>>,
     <<"C03:checkpoint-kept-and-on-schedule", e.ckHas = x.ckpt.has>>,
     <<"C03:checkpoint-is-latest",
        (e.ckHas /\ x.ckpt.has /\ e.ckIt >= 0) => (e.ckIt = x.ckpt.it /\ e.ckT = x.ckpt.t)>>,
     <<"C03:records-not-lost", cf.nc => (e.ncHas /\ Len(e.times) >= Len(x.recs))>>,
     <<"C02:output-file-iff-asked", e.ncHas = cf.nc>>,
     <<"C02:scheduled-records",
        cf.nc => (Len(e.times) = Len(x.recs)
                  /\ \A i \in 1..Len(x.recs) : i <= Len(e.times) => e.times[i] = x.recs[i].t)>>}
    \cup RefDisk(e)

\* whether checkpoint.npz was rewritten in this step
CkWritten(e, due) == {<<"C03:checkpoint-written-exactly-when-due", e.ckNew = due>>}

\* disk of a process that died: what it had completed by then
DeadDisk(e) ==
    LET a == Advance(cf, Solve(cf, m))
        o == OutData(cf, a)
        w == Update(cf, m)
    IN CASE e.upto = "none"   -> m          \* before the clock advanced or any output
         [] e.upto = "output" -> o          \* record done, checkpoint not
         [] e.upto = "writing" ->           \* in the middle: the old or the new one
              IF e.ckIt = w.ckpt.it THEN w ELSE o
         [] e.upto = "whole"  -> w          \* everything done
         [] OTHER             -> m

Step(e) ==
  CASE e.ev = "begin" ->
         [cf |-> e.cfg, m |-> Blank, alive |-> FALSE, cl |-> {}]
    [] e.ev = "boot" ->
         LET x == Boot(cf) IN
         [cf |-> cf, m |-> x, alive |-> TRUE,
          cl |-> MemClauses(e, x) \cup CkMemClauses(e, x) \cup DiskClauses(e, x)
                 \cup CkWritten(e, cf.ckOn)]
    [] e.ev = "update" ->
         LET x == Update(cf, m)
             due == DueCk(cf, Advance(cf, m)) IN
         [cf |-> cf, m |-> x, alive |-> TRUE,
          cl |-> MemClauses(e, x) \cup CkMemClauses(e, x) \cup DiskClauses(e, x)
                 \cup CkWritten(e, due)
                 \cup {<<"C01:step-fields-as-uninterrupted", e.stp = At(cf.stp, x.it + 1)>>}]
    [] e.ev = "dead" ->
         LET x == DeadDisk(e) IN
         [cf |-> cf, m |-> [Blank EXCEPT !.recs = x.recs, !.ckpt = x.ckpt],
          alive |-> FALSE, cl |-> DiskClauses(e, x)]
    [] e.ev = "load" ->
         LET x == Load(cf, m) IN
         [cf |-> cf, m |-> x, alive |-> TRUE,
          cl |-> MemClauses(e, x) \cup DiskClauses(e, x) \cup CkWritten(e, FALSE)
                 \cup {<<"C01:resumes-at-the-checkpoint", e.ckIt >= 0 => e.it = e.ckIt>>}]
    [] e.ev = "loadnew" ->   \* resumed with the output file gone or elsewhere
         LET x == LoadNew(cf, m) IN
         [cf |-> cf, m |-> x, alive |-> TRUE,
          cl |-> {<<"C01:clock-as-uninterrupted", e.t = At(cf.reft, e.it + 1)>>,
                  <<"C01:state-as-uninterrupted", e.dig = At(cf.ref, e.it + 1)>>,
                  <<"C01:random-stream-as-uninterrupted", e.rng = At(cf.rng, e.it + 1)>>,
                  <<"C01:output-phase-as-uninterrupted", e.sd = At(cf.refsd, e.it + 1)>>,
                  <<"C02:record-count", e.si = 0>>}]
    [] e.ev = "updnew" ->    \* ... and a timestep after that
         LET x == Update(cf, m) IN
         [cf |-> cf, m |-> x, alive |-> TRUE,
          cl |-> {<<"C01:clock-as-uninterrupted", e.t = At(cf.reft, e.it + 1)>>,
                  <<"C01:state-as-uninterrupted", e.dig = At(cf.ref, e.it + 1)>>,
                  <<"C01:random-stream-as-uninterrupted", e.rng = At(cf.rng, e.it + 1)>>,
                  <<"C01:output-phase-as-uninterrupted", e.sd = At(cf.refsd, e.it + 1)>>,
                  <<"C02:record-count", e.si = x.si>>,
                  <<"C02:scheduled-records",
                    cf.nc => (Len(e.times) = Len(x.recs)
                      /\ \A i \in 1..Len(x.recs) : i <= Len(e.times) => e.times[i] = x.recs[i].t)>>,
                  \* the new file continues with the records the old one would have got
                  <<"C01:records-as-uninterrupted",
                    cf.nc => \A i \in 1..Len(e.recs) :
                       \E j \in 1..Len(cf.frec) : e.recs[i] = cf.frec[j]>>,
                  \* (nothing has been promised about a file before its first record)
                  <<"C01:layout-as-uninterrupted",
                    (cf.nc /\ Len(e.recs) > 0) => e.layout = cf.layout>>}]
    [] e.ev = "odd" ->       \* timesteps that are no whole number of ticks
         [cf |-> cf, m |-> m, alive |-> TRUE, cl |-> RefClauses(e) \cup RefDisk(e)]
    [] e.ev = "end" ->       \* finished where the reference run finished
         [cf |-> cf, m |-> m, alive |-> FALSE,
          cl |-> {<<"C01:final-records-as-uninterrupted", cf.nc => e.recs = cf.frec>>,
                  <<"C01:layout-as-uninterrupted", cf.nc => e.layout = cf.layout>>}]
    [] e.ev = "error" ->
         [cf |-> cf, m |-> m, alive |-> FALSE,
          cl |-> {<<"no-failure:" \o e.exc, FALSE>>}]
    [] OTHER ->
         [cf |-> cf, m |-> m, alive |-> alive, cl |-> {<<"unknown-event", FALSE>>}]

TNext ==
  \/ /\ l <= Len(Trace)
     /\ LET r == Step(Trace[l]) IN
          /\ cf' = r.cf /\ m' = r.m /\ alive' = r.alive
          /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(r.cl)}
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(bad)
     /\ l' = l + 1 /\ UNCHANGED <<cf, m, alive, bad>>

TSpec == TInit /\ [][TNext]_vars
=============================================================================
