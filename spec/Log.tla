-------------------------------- MODULE Log ---------------------------------
(* A run in a folder, started, killed at any point, resumed from its last    *)
(* checkpoint, failing in a timestep or ending; log2 is the log of the same  *)
(* history had the models been one degree more verbose.                      *)
EXTENDS LogOps
CONSTANTS Seed, MaxN, MaxSeg, MaxV
Conf == <<"a", "b">>
VARIABLES log, log2, out, out2, v, n, ck, seg, pc, done
vars == <<log, log2, out, out2, v, n, ck, seg, pc, done>>
\* seg: where each model began, as a position in the log; done: the clocks
\* it went through
Init == log = <<>> /\ log2 = <<>> /\ out = <<>> /\ out2 = <<>> /\ v \in 0..MaxV
        /\ n = 0 /\ ck = -1 /\ seg = <<>> /\ pc = "none" /\ done = <<>>
W(es) == log' = WriteAll(log, es, v) /\ log2' = WriteAll(log2, es, v + 1)
P(k) == out' = out \o Prints(v, k) /\ out2' = out2 \o Prints(v + 1, k)
Start == /\ pc = "none" /\ seg = <<>>
         /\ W(Opening(FALSE, Conf, Seed, 0)) /\ P(0)
         /\ n' = 0 /\ seg' = <<Len(log) + 1>> /\ done' = <<0>> /\ pc' = "ready" /\ UNCHANGED <<v, ck>>
Resume == /\ pc = "none" /\ ck >= 0 /\ Len(seg) < MaxSeg
          /\ W(Opening(TRUE, Conf, Seed, ck)) /\ P(ck)
          /\ n' = ck /\ seg' = Append(seg, Len(log) + 1) /\ done' = Append(done, ck) /\ pc' = "ready"
          /\ UNCHANGED <<v, ck>>
Step == /\ pc = "ready" /\ n < MaxN
        /\ W(Stepping(n + 1)) /\ P(n + 1) /\ n' = n + 1 /\ done' = Append(done, n + 1)
        /\ UNCHANGED <<v, ck, seg, pc>>
Save == pc = "ready" /\ ck < n /\ ck' = n /\ UNCHANGED <<log, log2, out, out2, v, n, seg, pc, done>>
Fail == /\ pc = "ready" /\ W(<<<<"error", n, 0>>, <<"final", 0, 0>>>>) /\ pc' = "failed"
        /\ UNCHANGED <<out, out2, v, n, ck, seg, done>>
End == /\ pc = "ready" /\ W(<<<<"final", 0, 0>>>>) /\ pc' = "none"
       /\ UNCHANGED <<out, out2, v, n, ck, seg, done>>
Kill == pc = "ready" /\ pc' = "none" /\ UNCHANGED <<log, log2, out, out2, v, n, ck, seg, done>>
Louder == pc = "ready" /\ v < MaxV /\ v' = v + 1 /\ UNCHANGED <<log, log2, out, out2, n, ck, seg, pc, done>>
Next == Start \/ Resume \/ Step \/ Save \/ Fail \/ End \/ Kill \/ Louder
Spec == Init /\ [][Next]_vars

Times == Values(Kind(log, "time"))
\* the log tells every clock the run went through, in order, and the last
\* one is where the run is
ToldInOrder == Times = done
Current == (seg # <<>>) => Times[Len(Times)] = n
\* a model's own part of the log counts up by one from where it began
CountsUp == \A s \in 1..Len(seg) :
    LET lo == seg[s]
        hi == IF s < Len(seg) THEN seg[s + 1] - 1 ELSE Len(log)
        t == Values(Kind(SubSeq(log, lo, hi), "time"))
    IN \A i \in 1..Len(t) : t[i] = t[1] + i - 1
\* configuration and seed can be read back, however verbose and however
\* often resumed
ConfOnce == seg # <<>> => Values(Kind(log, "conf")) = Conf
SeedTold == seg # <<>> => \A i \in 1..Len(Kind(log, "seed")) : Kind(log, "seed")[i][2] = Seed
OneHeadEach == Len(Kind(log, "head")) = Len(seg)
\* being more verbose only adds
OnlyAdds == LeavesOut(log, log2) /\ LeavesOut(out, out2)
RecordSame == \A k \in {"head", "conf", "seed", "time", "error", "final"} : Kind(log, k) = Kind(log2, k)
FailTold == pc = "failed" => Len(Kind(log, "error")) = 1 /\ Kind(log, "error")[1][2] = n
PrintedIsTold == LeavesOut(out, Times)
=============================================================================
