SPECIFICATION GSpec
CONSTANTS
  Dts = {1, 2, 3}
  Switch = {2, 3, 5, 99, 98}
  Saves = {1, 2, 4, 5}
  Cks = {0, 1, 3, 4}
  MaxIt = 9
  MaxCrash = 3
  Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
