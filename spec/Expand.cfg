SPECIFICATION Spec
CONSTANTS
  MaxDims = 3
  MaxLen = 3
  MaxEns = 3
INVARIANTS AllValid Complete Distinct
CHECK_DEADLOCK FALSE
