SPECIFICATION Spec
CONSTANTS
  NJobs = 3
  Cap = 2
  QCap = 2
  Faults = {"none", "run", "final"}
  ReadFirst = TRUE
INVARIANTS Bounded AllReported
PROPERTY Terminates
CHECK_DEADLOCK FALSE
