----------------------------- MODULE ConvertOps -----------------------------
(* Model time, real time and rates per real year. The model clock only runs *)
(* while the river floods, a fraction p/q (the intermittency) of real time. *)
(* Times are counted in quarter days: a day has 4, a year (365.25 d) 1461.  *)
(* Fractions are pairs <<numerator, denominator>> with positive denominator.*)
EXTENDS Integers, Sequences

Day == 4
Year == 1461
Units == {"seconds", "days", "years"}
UnitQ(u) == CASE u = "days" -> Day [] u = "years" -> Year

FEq(a, b) == a[1] * b[2] = b[1] * a[2]
FLe(a, b) == a[1] * b[2] <= b[1] * a[2]

ValidIf(p, q) == p > 0 /\ p <= q
\* real time, in units of u quarter days, of model time t
Real(t, p, q, u) == <<t * q, p * u>>
\* model time of real time r (both in quarter days)
Model(r, p, q) == <<r * p, q>>
\* millimetres per quarter day of model time for mm millimetres per real year
Rate(mm, p, q) == <<mm * q, p * Year>>
\* what that rate makes in model time t
Rise(mm, p, q, t) == <<Rate(mm, p, q)[1] * t, Rate(mm, p, q)[2]>>

\* a job of y (quarter days of real time) with timestep dt: smallest n with
\* n * dt at least the model time of y
EndsAt(n, dt, y, p, q) == FLe(Model(y, p, q), <<n * dt, 1>>)
=============================================================================
