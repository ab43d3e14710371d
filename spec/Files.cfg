SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxSteps = 2
  Njobs = 2
INVARIANTS Safe NoHoles OnlyOwn
VIEW View
CHECK_DEADLOCK FALSE
