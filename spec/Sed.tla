-------------------------------- MODULE Sed ---------------------------------
(* One parcel crossing a small domain under every sequence of local         *)
(* conditions, and diffusion of every small bed.                            *)
EXTENDS SedOps, TLC
CONSTANTS V, Beds, Fluxes, MaxSteps
VARIABLES g, eta, vol, pos, n, last, kind, dif
vars == <<g, eta, vol, pos, n, last, kind, dif>>
\* row 0: land, channel, land; row 1: ocean; row 2: edge. stage 0
Grid == [L |-> 3, W |-> 3, type |-> <<-2, 1, -2, 0, 0, 0, -1, -1, -1>>]
Cells == 1..9
NoDif == [w |-> <<>>, e |-> <<>>]
NoStep == [cell |-> -1, by |-> 0, depth |-> 0]
Bed0 == <<40, -80, 40, -64, -32, 8, -64, -64, -64>>
Init == /\ g = Grid /\ eta = Bed0 /\ vol = V /\ pos = 1 /\ n = 0 /\ last = NoStep
        /\ kind \in {"sand", "mud", "diffusion"}
        /\ IF kind = "diffusion" THEN \E w \in [1..4 -> Fluxes], e \in [1..4 -> Beds] :
                dif = [w |-> w, e |-> e] ELSE dif = NoDif
\* every local condition: capacity above or below the load, speeds
Conds(i) == {[d |-> 0 - eta[i + 1], qs |-> 0, cap |-> c, es |-> x, em |-> y, dm |-> z, me |-> 1000, fuzz |-> 0] :
              c \in {0, 20000}, x \in {-1, 5000, 30000}, y \in {-1, 20000}, z \in {-1, 5000, 10000}}
Deltas(i) == IF kind = "sand" THEN UNION {SandDelta(vol, V, c, 10000) : c \in Conds(i)}
             ELSE UNION {MudDelta(vol, V, c, 1000) : c \in Conds(i)}
Flat == [type |-> g.type, wet |-> [k \in Cells |-> IF eta[k] < -4 THEN 1 ELSE 0], on |-> [k \in Cells |-> 1],
         qx |-> [k \in Cells |-> 10], qy |-> [k \in Cells |-> 0]]
Step == /\ kind # "diffusion" /\ n < MaxSteps /\ Type(g, pos) # -1
        /\ \E q \in Nexts(g, Flat, pos) : \E d \in Deltas(q) :
             /\ eta' = [eta EXCEPT ![q + 1] = @ + d] /\ vol' = vol - d /\ pos' = q /\ n' = n + 1
             /\ last' = [cell |-> q, by |-> d, depth |-> 0 - eta[q + 1]]
        /\ UNCHANGED <<g, kind, dif>>
Next == Step
Spec == Init /\ [][Next]_vars
Sum(f) == FoldSeq(LAMBDA x, acc : x + acc, 0, f)
Conserved == Sum(eta) + vol = Sum(Bed0) + V
NeverNegative == vol >= 0
LandUntouched == \A k \in Cells : g.type[k] = -2 => eta[k] = Bed0[k]
InsideOffLand == pos \in 0..8 /\ g.type[pos + 1] # -2
QuarterDepth == last # NoStep => A0(last.by) <= Quarter(last.depth)
\* a bed under water stays there: a quarter of the depth can never fill it
NeverEmerges == \A k \in Cells : Bed0[k] < 0 => eta[k] <= 0
DG == [L |-> 2, W |-> 2, type |-> <<0, 0, 0, 0>>]
PairwiseConserves == kind = "diffusion" =>
    FoldSet(LAMBDA i, acc : acc + Gets(DG, dif.w, dif.e, i), 0, 0..3) = 0
FlatStaysFlat == kind = "diffusion" => ((\A i, j \in 1..4 : dif.e[i] = dif.e[j]) => \A i \in 0..3 : Gets(DG, dif.w, dif.e, i) = 0)
=============================================================================
