------------------------------ MODULE Forcing -------------------------------
(* All histories of timesteps, changes of rates and resumptions.            *)
EXTENDS ForcingOps, TLC, Json
CONSTANTS Sl0s, Rates, Starts, Slrs, Dts, MaxIt
Sl0s1 == {0, 5}
Sl0s2 == {0, 524288, -1048576}
Rates1 == {0, 2, -4}
Slrs1 == {0, 2, -2}
Rates2 == {0, 2, 64, -32}
Slrs2 == {0, 2, -32, 200}
VARIABLES c, s, land, bed, due, rise, hist
vars == <<c, s, land, bed, due, rise, hist>>
Init == /\ c \in [on : BOOLEAN, start : Starts, rate : Rates, slr : Slrs, sl0 : Sl0s, dt : Dts]
        /\ s = Begin(c) /\ land = 0 /\ bed = 0 /\ due = 0 /\ rise = 0 /\ hist = <<>>
DoStep == /\ s.it < MaxIt
          /\ s' = Step(c, s) /\ bed' = bed - Sink(c, s) /\ land' = land
          /\ due' = due + (IF s.t >= c.start THEN s.dt ELSE 0)
          /\ rise' = rise + s.slr * s.dt
          /\ hist' = Append(hist, <<"step", 0>>) /\ UNCHANGED c
Change == Len(hist) < MaxIt + 3 /\ UNCHANGED <<c, land, bed, due, rise>> /\
    \/ \E r \in Slrs : r # s.slr /\ s' = [s EXCEPT !.slr = r] /\ hist' = Append(hist, <<"slr", r>>)
    \/ \E d \in Dts : d # s.dt /\ s' = [s EXCEPT !.dt = d] /\ hist' = Append(hist, <<"dt", d>>)
    \/ s.it > 0 /\ (s.slr # c.slr \/ s.dt # c.dt) /\ s' = Resume(c, s) /\ hist' = Append(hist, <<"resume", 0>>)
Next == DoStep \/ Change
Spec == Init /\ [][Next]_vars
View == <<c, s, land, bed, due, rise, Len(hist)>>
LandStays == land = 0
SinksAsConfigured == bed = (IF c.on THEN -(c.rate * due) \div 2 ELSE 0)
SeaLevel == s.sl = c.sl0 + rise \div 2
Constant == (\A i \in 1..Len(hist) : hist[i][1] # "slr") => s.sl = c.sl0 + (c.slr * s.t) \div 2
=============================================================================
