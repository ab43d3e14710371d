SPECIFICATION GSpec
CONSTANTS
  MaxOps = 8
  MaxSteps = 2
  Njobs = 2
  Depth = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
