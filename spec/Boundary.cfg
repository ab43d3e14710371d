SPECIFICATION Spec
CONSTANTS
  Us = {10, 20}
  Hs = {5, 50}
  Cs = {10, 200}
  Ns = {150, 260, 1000}
  Fs = {0, 250, 1000}
  Sls <- Sls1
  Slrs <- Slrs1
  Dts = {3000, 50000}
  MaxOps = 4
INVARIANTS Restores Balance WidthLimits OnlyDepth
VIEW View
CHECK_DEADLOCK FALSE
