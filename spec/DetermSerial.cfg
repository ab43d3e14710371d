SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2}
  NJobs = 3
  Steps = 2
  Parallel = FALSE
  Restore = TRUE
INVARIANTS FunctionOfSeed SameSeedSameResult
CHECK_DEADLOCK FALSE
