SPECIFICATION Spec
CONSTANTS
  NJobs = 3
  Cap = 3
  QCap = 1
  Faults = {"none", "run", "final"}
  ReadFirst = TRUE
INVARIANTS Bounded AllReported
PROPERTY Terminates
CHECK_DEADLOCK FALSE
