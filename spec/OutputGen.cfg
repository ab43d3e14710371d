SPECIFICATION GSpec
CONSTANTS
  Dts = {1, 2, 3}
  Saves = {1, 2, 5}
  MaxIt = 9
  MaxOps = 8
  Depth = 11
  OnSets = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
