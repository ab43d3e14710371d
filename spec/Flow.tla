-------------------------------- MODULE Flow --------------------------------
(* The flooding correction and the smoothing, for all small grids.          *)
EXTENDS FlowOps, TLC
CONSTANTS Heights, Dry
VARIABLES g, f, out, sm
vars == <<g, f, out, sm>>
Cells == 1..4
Init == /\ g = [L |-> 2, W |-> 2, type |-> <<-2, 1, 0, -1>>]
        /\ \E st \in [Cells -> Heights], et \in [Cells -> Heights] :
             f = [stage |-> st, eta |-> et,
                  wet |-> [k \in Cells |-> IF st[k] - et[k] > Dry THEN 1 ELSE 0]]
        /\ out = <<>> /\ sm = <<>>
Next == out = <<>> /\ out' = Flood(g, f) /\ sm' = Smooth(g, [k \in Cells |-> 1000 * f.stage[k]], 500, 1) /\ UNCHANGED <<g, f>>
Spec == Init /\ [][Next]_vars
Done == out # <<>>
WetUnchanged == Done => \A k \in Cells : f.wet[k] = 1 => out[k] = f.stage[k]
FloodedFromWetNeighbour == Done => \A k \in Cells : out[k] # f.stage[k] =>
    /\ f.wet[k] = 0 /\ out[k] > f.eta[k]
    /\ \E j \in Around(g, k - 1) : f.wet[j + 1] = 1 /\ f.stage[j + 1] = out[k]
NoneLeftBelow == Done => \A k \in Cells : f.wet[k] = 0 =>
    \A j \in Around(g, k - 1) : (f.wet[j + 1] = 1 /\ f.stage[j + 1] > f.eta[k]) => out[k] >= f.stage[j + 1]
SmoothingBounded == Done => \A k \in Cells : sm[k] <= 1000 * Max(Max(f.stage[1], f.stage[2]), Max(f.stage[3], f.stage[4]))
SmoothingKeepsTheEdge == Done => \A k \in Cells : g.type[k] = -1 => sm[k] = 1000 * f.stage[k]
=============================================================================
