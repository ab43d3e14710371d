SPECIFICATION Spec
CONSTANTS
  MaxDims = 3
  MaxLen = 3
  MaxEns = 3
CHECK_DEADLOCK FALSE
