---------------------------- MODULE ConvertTrace ----------------------------
(* Conversions and jobs of the implementation. Results of conversions come  *)
(* in thousandths of the unit, rates in 1e-16 m/s, sea level and bed in     *)
(* micrometres, real time at the end of a job in millionths of a year.      *)
EXTENDS ConvertOps, TraceLib
VARIABLES l, bad
TInit == l = 1 /\ bad = {}

\* one mm per 365.25 days, in 1e-16 m/s
RATE1 == 316881

TimeClauses(e) ==
    IF ~(ValidIf(e.p, e.q) /\ e.unit \in Units)
    THEN {<<"C19:refuses-" \o (IF e.unit \in Units THEN "intermittency-outside-its-interval" ELSE "unknown-unit"),
            e.outcome = "ValueError">>}
    ELSE {<<"C19:conversion-accepted", e.outcome = "ok">>,
          <<"C19:real-time-in-" \o e.unit,
            e.outcome = "ok" =>
              LET x == (IF e.unit = "seconds" THEN <<e.t * e.q, e.p>> ELSE Real(e.t, e.p, e.q, UnitQ(e.unit)))
              IN Near(e.r * x[2], x[1] * 1000, x[2])>>}

\* rate per quarter day is mm * q / (p * Year) mm
RateClauses(e) ==
    {<<"C19:rate-accepted", e.outcome = "ok">>,
     <<"C19:rate-per-real-year-becomes-rate-of-model-time",
       e.outcome = "ok" => Near(e.r * e.p, e.mm * RATE1 * e.q, Abs(e.mm) * e.q + e.p)>>}

\* a job of e.y (1e-6 real years) with timestep e.dt seconds
JobClauses(e) ==
    LET step == ((e.dt * e.q * 100) \div (e.p * 3155)) + 2
        rise == (e.mm * e.real) \div 1000
        sub  == (e.sub * e.real) \div 1000
    IN {<<"C19:job-runs", e.outcome = "ok">>,
        <<"C19:job-covers-its-real-years", e.outcome = "ok" => e.real >= e.y - 2>>,
        <<"C19:job-ends-within-one-timestep", e.outcome = "ok" => e.real <= e.y + step>>,
        <<"C19:sea-level-rises-by-rate-times-real-years",
          e.outcome = "ok" => Near(e.sea, rise, 3 + Abs(rise) \div 10000)>>,
        <<"C19:bed-subsides-by-rate-times-real-years",
          e.outcome = "ok" => Near(e.drop, sub, 5 + e.n + Abs(sub) \div 10000)>>}

Step(e) ==
  CASE e.ev = "begin" -> {}
    [] e.ev = "time" -> TimeClauses(e)
    [] e.ev = "rate" -> RateClauses(e)
    [] e.ev = "job" -> JobClauses(e)
    [] e.ev = "error" -> {<<"no-failure:" \o e.exc, FALSE>>}
    [] OTHER -> {<<"unknown-event", FALSE>>}
TNext ==
  \/ /\ l <= Len(Trace)
     /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(Step(Trace[l]))}
     /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_<<l, bad>>
=============================================================================
