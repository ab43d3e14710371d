SPECIFICATION Spec
CONSTANTS
  NL = 2
  NW = 3
  MaxOps = 3
INVARIANTS Inside Faithful OneEach Bijective ReadOnly
CHECK_DEADLOCK FALSE
