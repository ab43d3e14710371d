------------------------------- MODULE Proto --------------------------------
(* The protocol as a machine: passes in every possible order, a failure at  *)
(* any hook or in any method.                                               *)
EXTENDS ProtoOps, TLC
CONSTANTS MaxPass
VARIABLES p, c, seen, pass, n, it0
vars == <<p, c, seen, pass, n, it0>>
Init == /\ c \in [itermax : 0..3, resume : BOOLEAN, defer : BOOLEAN, newfile : BOOLEAN]
        /\ p = P0 /\ seen = <<>> /\ pass = "none" /\ n = 0 /\ it0 = 0
Begin(w) ==
    /\ p.stack = <<>> /\ n < MaxPass
    /\ CASE n = 0 -> w = "init"
         [] n = 1 /\ c.defer /\ ~c.resume -> w = "start"
         [] OTHER -> w \in {"update", "finalize"}
    /\ pass' = w /\ seen' = <<>> /\ n' = n + 1 /\ it0' = p.it /\ UNCHANGED c
    /\ p' = Enter(p, w, c)
Ok == p.stack # <<>> /\ ~p.abort
NextTok == LET q == Settle(p) IN IF Top(q).rest = <<>> THEN [k |-> "R", n |-> Top(q).n, a |-> 0] ELSE Head(Top(q).rest)
DoHook == Ok /\ NextTok.k = "H" /\ Expected(p, "H", NextTok.n, NextTok.a)
          /\ p' = Hook(p) /\ seen' = Append(seen, NextTok) /\ UNCHANGED <<c, pass, n, it0>>
FailHook == Ok /\ NextTok.k = "H" /\ p' = [Hook(p) EXCEPT !.abort = TRUE]
            /\ seen' = Append(seen, NextTok) /\ UNCHANGED <<c, pass, n, it0>>
DoEnter == Ok /\ NextTok.k = "M" /\ Expected(p, "M", NextTok.n, NextTok.a)
           /\ p' = Enter(p, NextTok.n, c) /\ seen' = Append(seen, NextTok) /\ UNCHANGED <<c, pass, n, it0>>
DoLeave == p.stack # <<>> /\ Done(p)
           /\ p' = Leave(p, Top(p).n, p.abort \/ (p.fin /\ Top(p).n \in {"update", "finalize"}))
           /\ UNCHANGED <<c, seen, pass, n, it0>>
FailIn == Ok /\ NextTok.k = "R" /\ Top(p).n \notin Passes
          /\ p' = Leave(p, Top(p).n, TRUE) /\ UNCHANGED <<c, seen, pass, n, it0>>
Next == (\E w \in Passes : Begin(w)) \/ DoHook \/ FailHook \/ DoEnter \/ DoLeave \/ FailIn
Spec == Init /\ [][Next]_vars

Count(k, x) == Cardinality({i \in 1..Len(seen) : seen[i].k = k /\ seen[i].n = x})
Names == {"solve_water_and_sediment_timestep", "apply_subsidence", "finalize_timestep", "output_data",
          "output_checkpoint", "route_water", "route_sediment", "init_sediment_iteration",
          "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels", "compute_sand_frac"}
Wnames == {"init_water_iteration", "run_water_iteration", "compute_free_surface", "finalize_water_iteration"}
Complete == p.stack = <<>> /\ pass = "update" /\ p.ticked /\ ~p.fin /\ Count("M", "output_checkpoint") = 1
\* every hook and method exactly once per completed timestep, the hook before the method
OncePerStep == Complete =>
    /\ \A x \in Names : Count("H", x) = 1 /\ Count("M", x) = 1
    /\ \A x \in Wnames : Count("H", x) = c.itermax /\ Count("M", x) = c.itermax
    /\ \A i \in 1..Len(seen) : seen[i].k = "M" => seen[i - 1] = [seen[i] EXCEPT !.k = "H"]
\* the clock: one tick per timestep that got past its finalization, none otherwise
ClockOK == /\ p.it - it0 \in {0, 1}
           /\ (p.it # it0) => (pass = "update" /\ Count("H", "after_finalize_timestep") = 1)
           /\ (pass = "update" /\ p.stack = <<>> /\ Count("H", "after_finalize_timestep") = 0) => p.it = it0
OutputAfterClock == (pass = "update" /\ Count("H", "output_data") = 1) => p.it = it0 + 1
NothingAfterFinal == p.fin => (pass \in {"update", "finalize"} => (p.it = it0 /\ seen = <<>>) \/ pass = "finalize")
=============================================================================
