------------------------------ MODULE LogTrace ------------------------------
(* Logs and standard output of the implementation. Each event tells what an *)
(* operation added: the clocks (<<ten times the seconds, timestep>>), the    *)
(* configuration, the seed, the headings and the user's own messages.        *)
EXTENDS LogOps, TraceLib
VARIABLES l, bad, s
\* v: verbosity, n: clock, ck: clock of the checkpoint, c: the scenario
None == [v |-> 0, n |-> 0, ck |-> 0, dt |-> 0, conf |-> <<>>, seed |-> ""]
TInit == l = 1 /\ bad = {} /\ s = None

Clock(n) == <<n * s.dt, n>>
Times(es, n) == [i \in 1..Len(Kind(es, "time")) |-> Clock(Kind(es, "time")[i][2])]
Printed(v, n) == [i \in 1..Len(Prints(v, n)) |-> Clock(Prints(v, n)[i])]

\* the clock, in the log and printed, as es says
Told(e, es, v) ==
    LET w == WriteAll(<<>>, es, v)
        ts == Times(w, 0)
    IN {<<"C20:clock-in-the-log-once-per-timestep", e.times = ts>>,
        <<"C20:clock-printed-when-verbose", e.prints = (IF v > 0 THEN ts ELSE <<>>)>>,
        <<"C20:one-log-in-the-folder-of-the-run", e.astray = 0>>}

OpenClauses(e, resume, n) ==
    Told(e, Opening(resume, s.conf, s.seed, n), e.v)
    \cup {<<"C20:model-ready-at-its-clock", e.it = n>>,
          <<"C20:log-headed-by-versions-and-platform", e.heads = <<e.version, e.python, e.platform>> >>,
          <<"C20:log-names-the-model", e.type = <<e.cls>> >>,
          <<"C20:configuration-in-the-log",
            IF resume THEN e.conf = <<>>
            ELSE Len(e.conf) = Len(s.conf) /\ ToSet(e.conf) = ToSet(s.conf)>>,
          <<"C20:seed-in-the-log",
            Len(e.seeds) = 1 /\ e.seeds[1] = e.seedx /\ (s.seed # "" => e.seedx = s.seed)>>}

NoConf(e) == {<<"C20:configuration-only-at-the-start", e.conf = <<>> /\ e.seeds = <<>> /\ e.heads = <<>> >>}

HistClauses(e) ==
  CASE e.op = "start" -> OpenClauses(e, FALSE, 0)
    [] e.op = "resume" -> OpenClauses(e, TRUE, s.ck)
    [] e.op = "step" -> Told(e, Stepping(s.n + 1), s.v) \cup NoConf(e)
    [] e.op = "note" -> Told(e, <<>>, s.v) \cup NoConf(e)
         \cup {<<"C20:message-kept-if-as-verbose-as-asked",
                 e.notes = (IF e.v <= s.v THEN <<e.text>> ELSE <<>>)>>}
    [] e.op = "fail" -> {<<"C20:failure-reaches-the-caller", e.raised>>} \cup Told(e, <<>>, s.v) \cup NoConf(e)
    [] e.op \in {"save", "end", "kill", "louder"} -> Told(e, <<>>, s.v) \cup NoConf(e)
    [] OTHER -> {<<"unknown-event", FALSE>>}

HistNext(e) ==
  CASE e.op = "start" -> [s EXCEPT !.v = e.v, !.n = 0]
    [] e.op = "resume" -> [s EXCEPT !.v = e.v, !.n = s.ck]
    [] e.op = "step" -> [s EXCEPT !.n = s.n + 1]
    [] e.op = "save" -> [s EXCEPT !.ck = s.n]
    [] e.op = "louder" -> [s EXCEPT !.v = e.v]
    [] OTHER -> s

\* the same run, ever more verbose: levels is the sequence of the logs
LevelClauses(e) ==
    {<<"C20:more-verbose-only-adds",
       \A i \in 1..(Len(e.logs) - 1) : LeavesOut(e.logs[i], e.logs[i + 1])>>,
     <<"C20:more-verbose-tells-more", \A i \in 1..2 : Len(e.logs[i]) < Len(e.logs[i + 1])>>,
     <<"C20:verbosity-changes-no-result", Cardinality(ToSet(e.res)) = 1>>}

\* a run without a seed, and one with the seed found in its log
SeedClauses(e) ==
    {<<"C20:logged-seed-reproduces-the-run", e.got /\ e.a = e.b>>}

\* a job of a set, n timesteps completed, failing thereafter or not
JobClauses(e) ==
    {<<"C20:log-of-the-job-tells-its-clocks", e.times = [i \in 1..(e.n + 1) |-> <<(i - 1) * e.dt, i - 1>>]>>,
     <<"C20:failure-is-in-the-log-of-the-job", (e.msgs > 0) = e.fail>>,
     <<"C20:errors-only-of-jobs-that-failed", (e.errs > 0) = e.fail>>,
     <<"C20:seed-in-the-log", e.seeds = <<e.seedx>> >>,
     <<"C20:configuration-in-the-log-of-the-job", e.conf = e.confx>>}

Step(e) ==
  CASE e.ev = "begin" -> {}
    [] e.ev = "op" -> HistClauses(e)
    [] e.ev = "levels" -> LevelClauses(e)
    [] e.ev = "reseed" -> SeedClauses(e)
    [] e.ev = "job" -> JobClauses(e)
    [] e.ev = "error" -> {<<"no-failure:" \o e.exc, FALSE>>}
    [] OTHER -> {<<"unknown-event", FALSE>>}
Adv(e) ==
  CASE e.ev = "begin" -> (IF Has(e.cfg, "conf") THEN [None EXCEPT !.dt = e.cfg.dt, !.conf = e.cfg.conf, !.seed = e.cfg.seed] ELSE None)
    [] e.ev = "op" -> HistNext(e)
    [] OTHER -> s
TNext ==
  \/ /\ l <= Len(Trace)
     /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(Step(Trace[l]))}
     /\ s' = Adv(Trace[l])
     /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<bad, s>>
TSpec == TInit /\ [][TNext]_<<l, bad, s>>
=============================================================================
