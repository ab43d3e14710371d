------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications: the recorded trace, evaluation of    *)
(* named clauses, and the verdict file.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* sentinels used by the recorder for values that are no plain integers
INFTY == 1900000000
NOTNUM == 1800000000
IsNum(x) == x > -1700000001 /\ x < 1700000001

\* a clause is <<name, BOOLEAN>>
Fails(cl) == {c[1] : c \in {x \in cl : ~x[2]}}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ a - b <= tol /\ b - a <= tol
Has(r, f) == f \in DOMAIN r

WriteVerdict(bad) ==
    JsonSerialize(IOEnv.VERDICT,
        <<[consumed |-> Len(Trace), bad |-> SetToSeq(bad)]>>)
=============================================================================
