SPECIFICATION Spec
CONSTANTS
  V = 64
  Beds = {0, 1, 5, 8}
  Fluxes = {0, 1, 3}
  MaxSteps = 6
INVARIANTS Conserved NeverNegative LandUntouched InsideOffLand QuarterDepth NeverEmerges PairwiseConserves FlatStaysFlat
CHECK_DEADLOCK FALSE
