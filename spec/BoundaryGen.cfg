SPECIFICATION Spec
CONSTANTS
  Us = {8, 10, 15, 20, 25}
  Hs = {5, 9, 20, 30, 50}
  Cs = {10, 50, 200, 1000}
  Ns = {100, 150, 174, 175, 200, 225, 260, 1000}
  Fs = {0, 250, 1000}
  Sls <- Sls1
  Slrs <- Slrs1
  Dts = {3000, 7505, 50000}
  MaxOps = 7
  Depth = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
