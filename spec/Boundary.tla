------------------------------ MODULE Boundary ------------------------------
(* All histories of changes of the boundary conditions.                     *)
EXTENDS BoundaryOps, TLC, Json
CONSTANTS Us, Hs, Cs, Ns, Fs, Sls, Slrs, Dts, MaxOps
Sls1 == {0, 1500, -2000}
Slrs1 == {0, 20, -5}
VARIABLES k, c, c0, d, hist
vars == <<k, c, c0, d, hist>>
Ks == [dx : {50}, W : {20, 24}, al : {10}, S : {0, 30}]
Init == /\ k \in Ks /\ c \in [u : Us, h : Hs, C : Cs, n : Ns, f : {500}, sl : {0}, slr : {0}, dt : {0}]
        /\ c0 = c /\ d = Derived(k, c) /\ hist = <<>>
Set(op, V) == \E v \in V : /\ c' = Do(c, op, v) /\ d' = Derived(k, c')
                           /\ hist' = Append(hist, <<op, v>>) /\ UNCHANGED <<k, c0>>
Step == Len(hist) > 0 /\ hist[Len(hist)][1] # "step" /\ hist' = Append(hist, <<"step", 0>>) /\ UNCHANGED <<k, c, c0, d>>
Next == Len(hist) < MaxOps /\
    (Set("velocity", Us) \/ Set("depth", Hs) \/ Set("concentration", Cs) \/ Set("width", Ns) \/ Set("bedload", Fs)
     \/ Set("sealevel", Sls) \/ Set("slr", Slrs) \/ Set("timestep", Dts) \/ Step)
Spec == Init /\ [][Next]_vars
View == <<k, c, c0, d, Len(hist)>>
\* back in the initial condition everything is as it was
Restores == (c.u = c0.u /\ c.h = c0.h /\ c.C = c0.C /\ c.n = c0.n /\ c.dt = c0.dt) => d = Derived(k, c0)
\* water and sediment balance
Balance == /\ d.Qw = d.qw * Cells(k, c) * k.dx /\ d.Qs = d.qs * Cells(k, c) * k.dx
           /\ d.vs = Cells(k, c) * Cells(k, c) * d.ref
           /\ c.dt = 0 => LET a == d.Qs \div 1000  b == (d.vs * 100) \div d.dt IN a - b \in -(3 + a \div 300)..(3 + a \div 300)
WidthLimits == d.width >= 3 * k.dx /\ (k.W >= 12 => d.width <= (k.W \div 4) * k.dx)
OnlyDepth == d.dry <= 100 /\ d.dry <= 10 * c.h
=============================================================================
