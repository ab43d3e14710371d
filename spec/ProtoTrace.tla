----------------------------- MODULE ProtoTrace -----------------------------
(* Recorded calls of hooks and methods of a real model.                     *)
(* Events: enter / leave of a method, hook; each with clock, digest of the  *)
(* state, and for leave whether an exception passes through. boom: the      *)
(* recorder raised here on purpose.                                         *)
EXTENDS ProtoOps, TraceLib
VARIABLES l, p, c, dt, base, last, fdig, bad
vars == <<l, p, c, dt, base, last, fdig, bad>>
NoEv == [ev |-> "none", n |-> "", dig |-> ""]
TInit == l = 1 /\ p = P0 /\ c = [itermax |-> 1] /\ dt = 0 /\ base = 0 /\ last = NoEv /\ fdig = "" /\ bad = {}

K(e) == IF e.ev = "hook" THEN "H" ELSE "M"
Match(e) == ~p.lost /\ Expected(p, K(e), e.n, e.a)
Level == IF p.stack = <<>> THEN "" ELSE Top(p).n
\* what happened to the state since the previous event (the clock is apart)
StateClauses(e) ==
    {<<"C09:nothing-happens-between-a-hook-and-its-method",
       (e.ev = "enter" /\ last.ev = "hook" /\ last.n = e.n) => e.dig = last.dig>>,
     <<"C09:hook-after-a-method-sees-its-result",
       (e.ev = "hook" /\ last.ev = "leave" /\ e.n = "after_" \o last.n) => e.dig = last.dig>>,
     <<"C09:nothing-happens-between-the-stages-of-a-timestep",
       (e.ev = "hook" /\ Level = "update" /\ last.ev \in {"leave", "hook"}) => e.dig = last.dig>>}
ClockClause(e, q) ==
    LET r == Settle(q) IN
    {<<"C09:clock-advances-once-between-finalization-and-output",
       e.n # "load_checkpoint" /\ Level # "load_checkpoint" /\ c.track
         => (e.t = base + r.it * dt /\ e.it = c.it0 + r.it)>>}

StepEnter(e) ==
  IF p.fin /\ p.stack = <<>>
  THEN /\ p' = Enter(p, e.n, c) /\ bad' = bad
  ELSE IF Match(e)
  THEN LET q == Enter(p, e.n, c) IN
       /\ p' = q
       /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(StateClauses(e) \cup (IF e.n = "init" THEN {} ELSE ClockClause(e, p)))}
  ELSE IF p.lost THEN UNCHANGED <<p, bad>>
  ELSE /\ p' = [p EXCEPT !.lost = TRUE]
       /\ bad' = bad \cup {[at |-> l, clause |-> IF p.abort THEN "C09:a-failure-ends-the-pass" ELSE "C09:documented-order"]}
StepHook(e) ==
  IF Match(e)
  THEN /\ p' = [Hook(p) EXCEPT !.abort = e.boom]
       /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(StateClauses(e) \cup ClockClause(e, p))}
  ELSE IF p.lost THEN UNCHANGED <<p, bad>>
  ELSE /\ p' = [p EXCEPT !.lost = TRUE]
       /\ bad' = bad \cup {[at |-> l, clause |-> IF p.abort THEN "C09:a-failure-ends-the-pass" ELSE "C09:documented-order"]}
StepLeave(e) ==
  IF p.lost \/ p.stack = <<>>
  THEN /\ p' = IF e.n \in Passes THEN [p EXCEPT !.lost = FALSE, !.stack = <<>>, !.abort = FALSE,
                                       !.it = (IF dt > 0 THEN (e.t - base) \div dt ELSE @),
                                       !.fin = @ \/ e.n = "finalize"] ELSE p
       /\ UNCHANGED bad
  ELSE LET refused == p.fin /\ e.n \in {"update", "finalize"}
           bump == p.abort \/ e.boom
           q == IF bump THEN [p EXCEPT !.abort = TRUE] ELSE p
           cl == {<<"C09:every-hook-and-method-is-called", bump \/ refused \/ e.failed \/ Done(p)>>,
                  <<"C09:no-unasked-failure", ~e.failed \/ bump \/ refused>>,
                  <<"C09:a-failure-is-not-swallowed", bump => e.failed>>,
                  <<"C09:refused-after-finalization", refused => (e.exc = "RuntimeError" /\ last.ev = "enter")>>,
                  <<"C09:refusal-changes-nothing", refused => (e.dig = last.dig /\ e.t = last.t /\ e.it = last.it /\ e.files = last.files)>>,
                  <<"C09:output-file-closed-by-finalization", (e.n = "finalize" /\ ~e.failed) => ~e.open>>,
                  <<"C09:finalization-leaves-the-state-alone", e.n = "finalize" => e.dig = last.dig>>}
                 \cup (IF refused \/ e.n = "init" THEN {} ELSE ClockClause(e, q))
       IN  /\ p' = (IF e.failed /\ ~refused /\ ~bump THEN [q EXCEPT !.lost = (Len(p.stack) > 1), !.stack = <<>>]
                    ELSE Leave(q, e.n, e.failed))
           /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(cl)}

TNext ==
  \/ /\ l <= Len(Trace)
     /\ l' = l + 1
     /\ LET e == Trace[l] IN
        CASE e.ev = "begin" -> /\ p' = P0 /\ c' = e.cfg /\ dt' = e.cfg.dt /\ base' = e.cfg.t0 /\ last' = NoEv
                               /\ UNCHANGED <<fdig, bad>>
          [] e.ev = "enter" -> StepEnter(e) /\ last' = e /\ UNCHANGED <<c, dt, base, fdig>>
          [] e.ev = "hook" -> StepHook(e) /\ last' = e /\ UNCHANGED <<c, dt, base, fdig>>
          [] e.ev = "leave" -> StepLeave(e) /\ last' = e /\ UNCHANGED <<c, dt, base, fdig>>
          [] e.ev = "fact" -> bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails({<<"C09:" \o e.name, e.ok>>})}
                              /\ UNCHANGED <<p, c, dt, base, last, fdig>>
          [] e.ev = "error" -> bad' = bad \cup {[at |-> l, clause |-> "no-failure:" \o e.exc]}
                               /\ UNCHANGED <<p, c, dt, base, last, fdig>>
          [] OTHER -> bad' = bad \cup {[at |-> l, clause |-> "unknown-event"]} /\ UNCHANGED <<p, c, dt, base, last, fdig>>
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<p, c, dt, base, last, fdig, bad>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
