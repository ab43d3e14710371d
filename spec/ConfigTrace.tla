---------------------------- MODULE ConfigTrace -----------------------------
(* What the real constructor made of configurations.                        *)
EXTENDS ConfigOps, TraceLib
VARIABLES l, bad
TInit == l = 1 /\ bad = {}
CaseClauses(e) ==
    LET o == Outcome(e.items) IN
    {<<"C08:" \o (CASE o = "TypeError" -> "wrong-type-refused-with-a-type-error"
                    [] o = "ValueError" -> "value-out-of-range-refused-with-a-value-error"
                    [] OTHER -> "acceptable-value-accepted"), e.outcome = o>>,
     <<"C08:refused-before-output", o # "accepted" => e.files = 0>>,
     <<"C08:exposes-the-resolved-value",
       (o = "accepted" /\ e.outcome = o) =>
         \A i \in 1..Len(e.items) :
            Resolved(e.items[i]) # "any" => e.items[i].exposed = Resolved(e.items[i])>>,
     <<"C08:given-twice-is-reported",
       \A i \in 1..Len(e.items) :
          (e.items[i].kw.given /\ e.items[i].file.given) => e.items[i].warned>>,
     <<"C08:given-once-is-not-reported",
       \A i \in 1..Len(e.items) :
          ~(e.items[i].kw.given /\ e.items[i].file.given) => ~e.items[i].warned>>,
     <<"C08:unknown-keys-are-reported",
       o = "accepted" => \A i \in 1..Len(e.unknown) : e.unknown[i].warned>>,
     <<"C08:known-keys-are-not-reported", ~e.spurious>>,
     <<"C08:assigning-out-of-range-is-refused",
       \A i \in 1..Len(e.sets) : SetOK(e.sets[i].k, e.sets[i].v) = (e.sets[i].how = "accepted")
                                 /\ e.sets[i].how \in {"accepted", "ValueError"}>>,
     <<"C08:an-assignment-takes-effect-or-changes-nothing",
       \A i \in 1..Len(e.sets) :
          e.sets[i].after = IF SetOK(e.sets[i].k, e.sets[i].v) THEN e.sets[i].v.tok ELSE e.sets[i].before>>}
Step(e) ==
  CASE e.ev = "begin" -> {}
    [] e.ev = "case" -> CaseClauses(e)
    [] e.ev = "names" -> {<<"C08:parameters-of-the-table", {e.names[i] : i \in 1..Len(e.names)} \subseteq Names
                             /\ \A i \in 1..Len(Table) : Table[i].k \in {e.names[j] : j \in 1..Len(e.names)}>>}
    [] e.ev = "error" -> {<<"no-failure:" \o e.exc, FALSE>>}
    [] OTHER -> {<<"unknown-event", FALSE>>}
TNext ==
  \/ /\ l <= Len(Trace)
     /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(Step(Trace[l]))}
     /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_<<l, bad>>
=============================================================================
