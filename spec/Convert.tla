------------------------------ MODULE Convert -------------------------------
(* A job of some real years under an intermittency, with a relative sea     *)
(* level rise given per real year.                                          *)
EXTENDS ConvertOps
CONSTANTS Dts, Ys, Mms, MaxQ
VARIABLES dt, y, mm, p, q, n, sea, pc
vars == <<dt, y, mm, p, q, n, sea, pc>>
\* the sea level is a fraction over p * Year; its numerator is kept
Init == /\ dt \in Dts /\ y \in Ys /\ mm \in Mms /\ q \in 1..MaxQ /\ p \in 0..(MaxQ + 1)
        /\ n = 0 /\ sea = 0 /\ pc = "start"
Start == pc = "start" /\ pc' = (IF ValidIf(p, q) THEN "running" ELSE "refused")
         /\ UNCHANGED <<dt, y, mm, p, q, n, sea>>
Step == pc = "running" /\ ~EndsAt(n, dt, y, p, q)
        /\ n' = n + 1 /\ sea' = sea + Rate(mm, p, q)[1] * dt
        /\ UNCHANGED <<dt, y, mm, p, q, pc>>
Stop == pc = "running" /\ EndsAt(n, dt, y, p, q) /\ pc' = "done"
        /\ UNCHANGED <<dt, y, mm, p, q, n, sea>>
Next == Start \/ Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

T == n * dt
R == Real(T, p, q, 1)
Sea == <<sea, p * Year>>
Running == pc \in {"running", "done"}
\* the conversions are each other's inverse
Inverse == Running => FEq(<<Model(R[1], p, q)[1], Model(R[1], p, q)[2] * R[2]>>, <<T, 1>>)
\* real time never runs slower than model time, alike without intermittency
Slower == Running => (FLe(<<T, 1>>, R) /\ (p = q => FEq(<<T, 1>>, R)))
UnitsAgree == Running => FEq(Real(T, p, q, Day), <<Real(T, p, q, Year)[1] * Year, Real(T, p, q, Year)[2] * Day>>)
\* sea level = rate per real year x real years, whatever the intermittency
SeaFollows == Running => FEq(Sea, <<mm * R[1], R[2] * Year>>)
\* the job covers its real years, by less than one timestep too much
Lasts == pc = "done" => (FLe(<<y, 1>>, R) /\ (n > 0 => ~FLe(<<y, 1>>, Real(T - dt, p, q, 1))))
RiseAtEnd == pc = "done" => FLe(<<mm * y, Year>>, Sea)
Halts == <>(pc \in {"refused", "done"})
=============================================================================
