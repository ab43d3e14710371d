SPECIFICATION Spec
CONSTANTS
  Heights = {0, 1, 2, 4}
  Dry = 1
INVARIANTS WetUnchanged FloodedFromWetNeighbour NoneLeftBelow SmoothingBounded SmoothingKeepsTheEdge
CHECK_DEADLOCK FALSE
