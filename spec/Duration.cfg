SPECIFICATION Spec
CONSTANTS
  Dts = {3072, 7168}
  Tss = {0, 3}
  Secs = {8192, 16384}
  Yrs = {7168, 40000}
  Ifs = {8, 2}
INVARIANTS RefusedNeverRuns Exact OverrideWins
PROPERTY Halts
CHECK_DEADLOCK FALSE
