----------------------------- MODULE DetermTrace ----------------------------
(* Runs of equal configuration and seed, recorded in different contexts.    *)
EXTENDS DetermOps, TraceLib
VARIABLES l, ref, bad
None == [steps |-> <<>>, rng |-> <<>>, recs |-> [x \in {} |-> ""]]
TInit == l = 1 /\ ref = None /\ bad = {}

Run(e) ==
    {<<"C04:same-fields:" \o e.ctx, Prefix(e.steps, ref.steps)>>,
     <<"C04:same-random-stream:" \o e.ctx, Prefix(e.rng, ref.rng)>>,
     <<"C04:same-records:" \o e.ctx, Common(e.recs, ref.recs)>>,
     <<"C04:ran-to-the-end:" \o e.ctx, Len(e.steps) = e.want>>,
     <<"C04:model-reports-its-seed:" \o e.ctx, e.seed = e.wantSeed>>,
     <<"C04:log-reports-its-seed:" \o e.ctx, e.logged>>}
Step(e) ==
  CASE e.ev = "begin" -> [ref |-> None, cl |-> {}]
    [] e.ev = "ref" -> [ref |-> e, cl |-> {<<"C04:reference-ran", Len(e.steps) > 0>>,
                                           <<"C04:log-reports-its-seed:reference", e.logged>>}]
    [] e.ev = "run" -> [ref |-> ref, cl |-> Run(e)]
    [] e.ev = "other" -> \* another seed: must not be the same run
         [ref |-> ref, cl |-> {<<"C04:another-seed-another-run", e.steps # ref.steps>>}]
    [] e.ev = "seeds" ->
         [ref |-> ref, cl |-> {<<"C04:jobs-have-seeds-of-their-own",
             \A i, j \in 1..Len(e.seeds) : i # j => e.seeds[i] # e.seeds[j]>>}]
    [] e.ev = "error" -> [ref |-> ref, cl |-> {<<"no-failure:" \o e.exc, FALSE>>}]
    [] OTHER -> [ref |-> ref, cl |-> {<<"unknown-event", FALSE>>}]
TNext ==
  \/ /\ l <= Len(Trace)
     /\ LET r == Step(Trace[l]) IN
          ref' = r.ref /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(r.cl)}
     /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<ref, bad>>
TSpec == TInit /\ [][TNext]_<<l, ref, bad>>
=============================================================================
