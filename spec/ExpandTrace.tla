---------------------------- MODULE ExpandTrace -----------------------------
(* Expansions performed by the implementation.                              *)
EXTENDS ExpandOps, TraceLib
VARIABLES l, inp, jobs, bad
Dummy == [hasMat |-> FALSE, hasSet |-> FALSE, mat |-> <<>>, sets |-> <<>>, ens |-> -1,
          ensInt |-> TRUE, fixed |-> <<>>, out |-> FALSE]
TInit == l = 1 /\ inp = Dummy /\ jobs = <<>> /\ bad = {}

\* the varied part of a job's configuration; "?" if a key is missing
Get(r, k) == IF k \in DOMAIN r THEN r[k] ELSE "?"
Varied(j) == [k \in VariedKeys(inp) |-> Get(j.cfg, k)]

\* the folder of job i, counted from 0
Folder(i) == "job_" \o (IF i < 10 THEN "00" ELSE IF i < 100 THEN "0" ELSE "") \o ToString(i)

JobClauses(e) ==
    LET vk == VariedKeys(inp)
        sk == IF Replicas(inp) > 1 THEN {"seed"} ELSE {}
        fk == Keys(inp.fixed) \ (vk \cup sk \cup {"out_dir"}) IN
    {<<"C05:fixed-parameters-in-every-job",
        \A i \in 1..Len(inp.fixed) :
           inp.fixed[i].k \in fk => Get(e.cfg, inp.fixed[i].k) = inp.fixed[i].v>>,
     <<"C05:no-other-parameters", DOMAIN e.cfg \subseteq (vk \cup sk \cup fk \cup {"out_dir"})>>,
     <<"C05:job-file-equals-job-configuration",
        \A k \in (DOMAIN e.cfg \cup DOMAIN e.yml) : Get(e.yml, k) = Get(e.cfg, k)>>,
     <<"C05:model-of-job-file-has-the-parameters",
        \A k \in DOMAIN e.model : e.model[k] = Get(e.cfg, k)>>,
     <<"C05:job-file-can-be-run-on-its-own", e.ran>>}
    \cup (IF Expanded(inp) THEN
    {<<"C05:folder-named-by-number", e.id = Folder(Len(jobs))>>,
     <<"C05:own-folder", e.dirExists /\ \A i \in 1..Len(jobs) : jobs[i].dir # e.dir>>,
     <<"C05:folder-inside-output-folder", e.parent>>,
     <<"C05:job-file-in-folder", e.inFolder>>,
     <<"C05:row-in-table", Len(e.row) = Len(e.header) /\ e.row # <<>>>>,
     <<"C05:row-names-the-job", e.row # <<>> => e.row[1] = e.id>>,
     <<"C05:header-names-varied-keys",
        Len(e.header) >= 1 => {e.header[i] : i \in 2..Len(e.header)} = (vk \cup sk)>>,
     <<"C05:row-has-varied-values",
        \A i \in 2..Len(e.row) : i <= Len(e.header) => e.row[i] = Get(e.str, e.header[i])>>}
    ELSE {})

DoneClauses(e) ==
    {<<"C05:number-of-jobs", Len(jobs) = NumJobs(inp) /\ e.nfiles = Len(jobs)>>,
     <<"C05:every-combination-as-often-as-promised",
        \A a \in Combos(inp) :
          Cardinality({i \in 1..Len(jobs) : Varied(jobs[i]) = a}) = CountOf(inp, a)>>,
     <<"C05:no-other-combination", \A i \in 1..Len(jobs) : Varied(jobs[i]) \in Combos(inp)>>,
     <<"C05:replicas-have-distinct-seeds",
        Replicas(inp) > 1 =>
          \A c \in Combos(inp) :   \* (a list may name a value twice)
             Cardinality({Get(jobs[i].cfg, "seed") : i \in {i \in 1..Len(jobs) : Varied(jobs[i]) = c}})
               >= Replicas(inp)>>,
     <<"C05:jobs-in-the-order-of-the-input",
        (Replicas(inp) = 1 /\ Len(jobs) = NumJobs(inp)) =>
          /\ inp.hasSet => \A i \in 1..Len(jobs) : Varied(jobs[i]) = SetAssign(inp.sets[i])
          /\ (inp.hasMat /\ Len(inp.mat) = 1) =>
               \A i \in 1..Len(jobs) : Varied(jobs[i])[inp.mat[1].k] = inp.mat[1].vals[i]>>,
     <<"C05:table-has-no-other-rows", Expanded(inp) => e.rows = Len(jobs)>>}

Step(e) ==
  CASE e.ev = "begin" -> [inp |-> e.cfg, jobs |-> <<>>, cl |-> {}]
    [] e.ev = "expand" ->
         [inp |-> inp, jobs |-> <<>>,
          cl |-> IF Valid(inp)
                 THEN {<<"C05:valid-input-accepted", e.outcome = "accepted">>}
                 ELSE {<<"C05:ambiguous-input-rejected", e.outcome = "rejected">>,
                       <<"C05:rejected-before-anything-is-run", e.ran = 0>>}]
    [] e.ev = "job" -> [inp |-> inp, jobs |-> Append(jobs, e), cl |-> JobClauses(e)]
    [] e.ev = "done" -> [inp |-> inp, jobs |-> jobs, cl |-> DoneClauses(e)]
    [] e.ev = "error" -> [inp |-> inp, jobs |-> jobs, cl |-> {<<"no-failure:" \o e.exc, FALSE>>}]
    [] OTHER -> [inp |-> inp, jobs |-> jobs, cl |-> {<<"unknown-event", FALSE>>}]
TNext ==
  \/ /\ l <= Len(Trace)
     /\ LET r == Step(Trace[l]) IN
          /\ inp' = r.inp /\ jobs' = r.jobs
          /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(r.cl)}
     /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED <<inp, jobs, bad>>
TSpec == TInit /\ [][TNext]_<<l, inp, jobs, bad>>
=============================================================================
