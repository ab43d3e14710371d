------------------------------- MODULE Output -------------------------------
(* The output machine: construction (at once or deferred), timesteps, a     *)
(* change of the saving interval and of the figures during the run.         *)
EXTENDS OutputOps, Json

CONSTANTS Dts, Saves, MaxIt, MaxOps, OnSets
VARIABLES o, pc, s, hist, saves
vars == <<o, pc, s, hist, saves>>

Init == /\ o \in [on : OnSets, legacy : BOOLEAN, custom : BOOLEAN, sub : BOOLEAN,
                  seqfig : BOOLEAN, dt : Dts, save : Saves]
        /\ pc = "new" /\ s = Blank /\ hist = <<>> /\ saves = <<>>

Mem == [t |-> s.t, it |-> s.it]
Boot  == pc = "new" /\ pc' = "run" /\ s' = Output(o, s, Mem)
         /\ hist' = Append(hist, "b") /\ saves' = <<o.save>> /\ UNCHANGED o
Defer == pc = "new" /\ pc' = "deferred" /\ hist' = Append(hist, "d") /\ UNCHANGED <<o, s, saves>>
Late  == pc = "deferred" /\ pc' = "run" /\ s' = Output(o, s, Mem)
         /\ hist' = Append(hist, "i") /\ saves' = <<o.save>> /\ UNCHANGED o
Update == /\ pc = "run" /\ s.it < MaxIt
          /\ LET a == Advance(o, s) IN s' = Output(o, a, [t |-> a.t, it |-> a.it])
          /\ saves' = (IF Len(s'.recs) > Len(s.recs) THEN Append(saves, o.save) ELSE saves)
          /\ hist' = Append(hist, "u") /\ UNCHANGED <<o, pc>>
SetSave == /\ pc = "run" /\ Len(hist) < MaxOps
           /\ \E v \in Saves \ {o.save} :
                /\ o' = [o EXCEPT !.save = v]
                /\ hist' = Append(hist, "s" \o ToString(v))
           /\ UNCHANGED <<pc, s, saves>>
\* the length of a timestep is changed while the model runs
SetDt == /\ pc = "run" /\ Len(hist) < MaxOps
         /\ \E v \in Dts \ {o.dt} :
              /\ o' = [o EXCEPT !.dt = v]
              /\ hist' = Append(hist, "t" \o ToString(v))
         /\ UNCHANGED <<pc, s, saves>>
Toggle == /\ pc = "run" /\ Len(hist) < MaxOps
          /\ \E f \in {"save_velocity_figs", "save_eta_figs"} :
               /\ o' = [o EXCEPT !.on = IF f \in @ THEN @ \ {f} ELSE @ \cup {f}]
               /\ hist' = Append(hist, "g" \o f)
          /\ UNCHANGED <<pc, s, saves>>
\* before the file is there, what goes into it can still be changed
ToggleGrid == /\ pc = "deferred" /\ HasFile(o) /\ Len(hist) < MaxOps
              /\ \E f \in GridOpts :
                   /\ o' = [o EXCEPT !.on = IF f \in @ THEN @ \ {f} ELSE @ \cup {f}]
                   /\ hist' = Append(hist, "g" \o f)
              /\ AnyGrid(o) /\ AnyGrid(o')
              /\ UNCHANGED <<pc, s, saves>>
Next == Boot \/ Defer \/ Late \/ Update \/ SetSave \/ SetDt \/ Toggle \/ ToggleGrid
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------- *)
\* one record at the start, each later one at the first timestep at which the
\* saving interval in force has elapsed; contiguous, increasing, nothing else
Scheduled ==
    pc = "run" =>
      /\ Len(s.recs) >= 1 /\ s.recs[1].t = 0
      /\ \A i \in 2..Len(s.recs) :
            /\ s.recs[i].t > s.recs[i-1].t
            /\ s.recs[i].t - s.recs[i-1].t >= saves[i]
      /\ s.si = Len(s.recs)
\* never later than one step after the interval elapsed, if it did not change
NotLate == (pc = "run" /\ \A i \in 1..Len(hist) : hist[i] \in {"b", "d", "i", "u"}) =>
    /\ \A i \in 2..Len(s.recs) : s.recs[i].t - s.recs[i-1].t < o.save + o.dt
    /\ s.t - s.recs[Len(s.recs)].t < o.save
NothingBeforeAsked == pc \in {"new", "deferred"} => s.recs = <<>> /\ s.files = {}
\* names are unique, so that no variable can displace another
UniqueNames == \A v, w \in AllVars(o) : v.name = w.name => v = w
=============================================================================
