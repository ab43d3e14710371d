------------------------------ MODULE ProtoOps ------------------------------
(* The protocol of the model: which hooks and methods a pass (construction, *)
(* deferred start, timestep, finalization) consists of, in which order,     *)
(* nested in which method, and where the clock ticks.                       *)
(* c = [itermax, resume, defer, newfile]                                    *)
EXTENDS Integers, Sequences, FiniteSets

H(n) == [k |-> "H", n |-> n, a |-> 0]
M(n) == [k |-> "M", n |-> n, a |-> 0]
HM(n) == <<H(n), M(n)>>
Tick == [k |-> "T", n |-> "tick", a |-> 0]

RECURSIVE Water(_, _)
Water(i, n) ==
    IF i = n THEN <<>>
    ELSE HM("init_water_iteration") \o HM("run_water_iteration") \o HM("compute_free_surface")
         \o <<[k |-> "H", n |-> "finalize_water_iteration", a |-> i],
              [k |-> "M", n |-> "finalize_water_iteration", a |-> i]>>
         \o Water(i + 1, n)

Start == HM("init_output_file") \o HM("output_data") \o HM("output_checkpoint")

Body(n, c) ==
  CASE n = "init" ->
        HM("import_files") \o HM("process_input_to_model") \o HM("create_other_variables")
        \o HM("create_domain") \o <<H("after_create_domain")>>
        \o (IF c.resume THEN HM("load_checkpoint") ELSE IF c.defer THEN <<>> ELSE Start)
    [] n = "load_checkpoint" ->
        IF c.defer THEN <<>>
        ELSE <<H("init_output_file")>> \o (IF c.newfile THEN <<M("init_output_file")>> ELSE <<>>)
    [] n = "update" ->
        HM("solve_water_and_sediment_timestep") \o HM("apply_subsidence") \o HM("finalize_timestep")
        \o <<H("after_finalize_timestep"), Tick>> \o HM("output_data") \o HM("output_checkpoint")
    [] n = "solve_water_and_sediment_timestep" ->
        HM("route_water") \o <<H("after_route_water")>> \o HM("route_sediment") \o <<H("after_route_sediment")>>
    [] n = "route_water" -> Water(0, c.itermax)
    [] n = "route_sediment" ->
        HM("init_sediment_iteration") \o HM("route_all_sand_parcels") \o HM("topo_diffusion")
        \o HM("route_all_mud_parcels")
    [] n = "finalize_timestep" -> HM("compute_sand_frac")
    [] OTHER -> <<>>

(* The protocol state: a stack of methods being executed with what is left  *)
(* of each; clock in timesteps; whether a failure is on its way out.        *)
P0 == [stack |-> <<>>, it |-> 0, fin |-> FALSE, abort |-> FALSE, lost |-> FALSE, ticked |-> FALSE]
Top(p) == p.stack[Len(p.stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Passes == {"init", "update", "finalize", "start"}
\* the tick is not observable by itself: it happens before whatever follows
RECURSIVE Settle(_)
Settle(p) ==
    IF p.stack = <<>> \/ p.abort THEN p
    ELSE LET t == Top(p) IN
         IF t.rest # <<>> /\ Head(t.rest).k = "T"
         THEN Settle([p EXCEPT !.stack[Len(p.stack)].rest = Tail(t.rest), !.it = @ + 1, !.ticked = TRUE])
         ELSE p

\* may this hook or method come now?
Expected(p, k, n, a) ==
    LET q == Settle(p) IN
    /\ ~p.abort
    /\ IF q.stack = <<>> THEN k = "M" /\ n \in Passes
       ELSE LET t == Top(q) IN t.rest # <<>> /\ Head(t.rest) = [k |-> k, n |-> n, a |-> a]
Enter(p, n, c) ==
    LET q == Settle(p)
        r == IF q.stack = <<>> THEN [q EXCEPT !.ticked = FALSE]
             ELSE [q EXCEPT !.stack[Len(q.stack)].rest = Tail(@)]
    IN  [r EXCEPT !.stack = Append(@, [n |-> n, rest |-> IF p.fin THEN <<>> ELSE IF n = "start" THEN Start ELSE Body(n, c)])]
Hook(p) == LET q == Settle(p) IN [q EXCEPT !.stack[Len(q.stack)].rest = Tail(@)]
Done(p) == LET q == Settle(p) IN q.stack # <<>> /\ (p.abort \/ Top(q).rest = <<>>)
Leave(p, n, failed) ==
    LET q == Settle(p)
        s == Pop(q.stack)
    IN  [q EXCEPT !.stack = s, !.abort = failed /\ s # <<>>,
                  !.fin = q.fin \/ (n = "finalize" /\ ~failed)]
=============================================================================
