------------------------------ MODULE ProtoGen ------------------------------
(* Every point of every pass at which a failure can be injected.            *)
EXTENDS ProtoOps, TLC, Json, IOUtils, SequencesExt
VARIABLE done
RECURSIVE Flat(_, _)
Flat(ts, c) == IF ts = <<>> THEN <<>>
               ELSE IF Head(ts).k = "T" THEN Flat(Tail(ts), c)
               ELSE <<Head(ts)>> \o (IF Head(ts).k = "M" THEN Flat(Body(Head(ts).n, c), c) ELSE <<>>)
                    \o Flat(Tail(ts), c)
Cs == [itermax : 1..2, resume : BOOLEAN, defer : BOOLEAN, newfile : BOOLEAN]
Pts(c, w) == LET f == Flat(IF w = "start" THEN Start ELSE Body(w, c), c) IN
    {[c |-> c, pass |-> w, k |-> f[i].k, n |-> f[i].n,
      occ |-> Cardinality({j \in 1..i : f[j].k = f[i].k /\ f[j].n = f[i].n})] : i \in 1..Len(f)}
All == UNION {Pts(c, w) : c \in Cs, w \in {"init", "update"}}
       \cup UNION {Pts(c, "start") : c \in {x \in Cs : x.defer /\ ~x.resume}}
GInit == done = FALSE
GNext == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.GEN_OUT, SetToSeq(All))
GSpec == GInit /\ [][GNext]_done
=============================================================================
