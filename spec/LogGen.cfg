SPECIFICATION GSpec
CONSTANTS
  Seed = 7
  MaxN = 6
  MaxSeg = 4
  MaxV = 3
  Depth = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
