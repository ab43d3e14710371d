SPECIFICATION Spec
CONSTANTS
  Sl0s <- Sl0s2
  Rates <- Rates2
  Starts = {0, 1499, 1500, 1501, 2250, 2500, 3000, 3001, 4500, 1000000}
  Slrs <- Slrs2
  Dts = {750, 1000, 1500}
  MaxIt = 5
  Depth = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
