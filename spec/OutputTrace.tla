---------------------------- MODULE OutputTrace -----------------------------
(* Recorded runs against OutputOps. Every event carries the digests of the  *)
(* fields of the model (mem, cast to the types of the file) and what is     *)
(* found on disk: the variables of the output file with units, type,        *)
(* dimensions and content digests, and the figures with their content.      *)
EXTENDS OutputOps, TraceLib

VARIABLES l, o, s, f0, bad     \* f0: fixed quantities when the file was begun
vars == <<l, o, s, f0, bad>>

DummyO == [on |-> {}, legacy |-> FALSE, custom |-> FALSE, sub |-> FALSE,
           seqfig |-> FALSE, dt |-> 1, save |-> 1, tol |-> 0]
TInit == l = 1 /\ o = DummyO /\ s = Blank /\ f0 = 0 /\ bad = {}

ToO(c) == [on |-> {c.on[i] : i \in 1..Len(c.on)}, legacy |-> c.legacy, custom |-> c.custom,
           sub |-> c.sub, seqfig |-> c.seqfig, dt |-> c.dt, save |-> c.save,
           tol |-> c.tol]     \* for times that are no whole number of ticks

Close(oo, a, b) == IF oo.tol = 0 \/ b >= INF THEN a = b ELSE Near(a, b, oo.tol)

Names(e) == DOMAIN e.vars

FileClauses(oo, x, e, fix) ==
  IF ~(HasFile(oo)) THEN {<<"C02:no-file-unless-asked", ~e.ncHas>>}
  ELSE
    LET want == AllVars(oo)
        rv == RecVars(oo)
        have == {v \in want : v.name \in Names(e)} IN
    {<<"C02:file-on-disk-and-readable", e.ncHas /\ e.ncOK>>,
     <<"C02:variables-exactly-as-asked", Names(e) = {v.name : v \in want}>>,
     <<"C02:units", \A v \in have : e.vars[v.name].units = v.units>>,
     <<"C02:types", \A v \in have : e.vars[v.name].type = v.type>>,
     <<"C02:dimensions", \A v \in have : e.vars[v.name].dims = v.dims>>,
     <<"C02:number-of-records", e.nrec = Len(x.recs)
          /\ \A v \in have \cap rv : Len(e.vars[v.name].recs) = Len(x.recs)>>,
     <<"C02:record-times", Len(e.times) = Len(x.recs)
          /\ \A i \in 1..Len(x.recs) : i <= Len(e.times) => Close(oo, e.times[i], x.recs[i].t)>>,
     <<"C02:records-equal-the-model-state",
          \A v \in have \cap rv : \A i \in 1..Len(x.recs) :
             i <= Len(e.vars[v.name].recs) => e.vars[v.name].recs[i] = x.recs[i].mem[v.field]>>,
     <<"C02:fixed-variables-equal-the-model-state",
          \A v \in have \ rv : e.vars[v.name].val = fix[v.field]>>,
     <<"C02:file-attributes", e.attrs>>}

FigClauses(oo, x, e, due) ==
    {<<"C02:figures-exactly-as-scheduled", {e.figs[i] : i \in 1..Len(e.figs)} = x.files>>,
     <<"C02:figures-drawn-when-a-record-is-due",
        {e.drawn[i].file : i \in 1..Len(e.drawn)}
          = (IF due THEN {FigFile(oo, f[1], x.si - 1) : f \in Figs(oo)} ELSE {})>>,
     <<"C02:figures-show-the-field-asked-for",
        \A i \in 1..Len(e.drawn) :
           (e.drawn[i].dig # "") =>
             \E f \in Figs(oo) : e.drawn[i].file = FigFile(oo, f[1], x.si - 1)
                                 /\ e.drawn[i].dig = e.mem[f[2]]>>}

MemClauses(x, e) ==
    {<<"C02:time-since-record", Close(o, e.sd, x.sd)>>, <<"C02:record-count", e.si = x.si>>}

Snap(x, e) == [t |-> x.t, mem |-> e.mem]

Step(e) ==
  CASE e.ev = "begin" -> [o |-> ToO(e.cfg), s |-> Blank, cl |-> {}]
    [] e.ev = "defer" ->
         [o |-> o, s |-> Blank,
          cl |-> {<<"C02:nothing-written-when-deferred", ~e.ncHas /\ Len(e.figs) = 0>>}]
    [] e.ev \in {"boot", "late"} ->
         LET x == Output(o, s, Snap(s, e)) IN
         [o |-> o, s |-> x,
          cl |-> FileClauses(o, x, e, e.fix) \cup FigClauses(o, x, e, TRUE) \cup MemClauses(x, e)]
    [] e.ev = "update" ->
         LET a == Advance(o, s)
             x == Output(o, a, Snap(a, e)) IN
         [o |-> o, s |-> x,
          cl |-> FileClauses(o, x, e, f0) \cup FigClauses(o, x, e, Due(o, a)) \cup MemClauses(x, e)]
    [] e.ev = "save" ->
         [o |-> [o EXCEPT !.save = e.save], s |-> s, cl |-> {}]
    [] e.ev = "dt" ->
         [o |-> [o EXCEPT !.dt = e.dt], s |-> s, cl |-> {}]
    [] e.ev = "toggle" ->
         [o |-> [o EXCEPT !.on = IF e.val THEN @ \cup {e.opt} ELSE @ \ {e.opt}], s |-> s, cl |-> {}]
    [] e.ev = "final" ->
         [o |-> o, s |-> s, cl |-> FileClauses(o, s, e, f0)
             \cup {<<"C02:figures-exactly-as-scheduled", {e.figs[i] : i \in 1..Len(e.figs)} = s.files>>}]
    [] e.ev = "error" -> [o |-> o, s |-> s, cl |-> {<<"no-failure:" \o e.exc, FALSE>>}]
    [] OTHER -> [o |-> o, s |-> s, cl |-> {<<"unknown-event", FALSE>>}]

TNext ==
  \/ /\ l <= Len(Trace)
     /\ LET r == Step(Trace[l]) IN
          /\ o' = r.o /\ s' = r.s
          /\ f0' = (IF Trace[l].ev \in {"boot", "late"} THEN Trace[l].fix ELSE f0)
          /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(r.cl)}
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(bad)
     /\ l' = l + 1 /\ UNCHANGED <<o, s, f0, bad>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
