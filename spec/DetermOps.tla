----------------------------- MODULE DetermOps ------------------------------
(* Who owns the random generator. There is one generator per process; a     *)
(* state of it is <<origin, n>>: n draws after being set from origin (a     *)
(* seed, or something foreign). A timestep of a job draws once. The result  *)
(* of a job is the sequence of states its timesteps drew from.              *)
EXTENDS Integers, Sequences

FromSeed(s) == <<s, 0>>
Draw(g) == <<g[1], g[2] + 1>>
Foreign == <<-1, 0>>

\* the only result a job with this seed may have after k timesteps
Expected(s, k) == [i \in 1..k |-> <<s, i - 1>>]

\* two recordings of the same configuration and seed, as far as both went
Prefix(a, b) == \A i \in 1..Len(a) : i <= Len(b) => a[i] = b[i]
Common(a, b) == \A t \in (DOMAIN a \cap DOMAIN b) : a[t] = b[t]
=============================================================================
