----------------------------- MODULE ConfigGen ------------------------------
EXTENDS Config
GInit == it = 0 /\ pc = "" /\ val = "" /\ wrote = FALSE
GNext == ~wrote /\ wrote' = TRUE /\ UNCHANGED <<it, pc, val>> /\ JsonSerialize(IOEnv.GEN_OUT, SetToSeq(Useful))
GSpec == GInit /\ [][GNext]_vars
=============================================================================
