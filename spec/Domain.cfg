SPECIFICATION Spec
CONSTANTS
  Lens = {8, 9, 10, 11, 12, 13, 16, 21, 30, 47}
  Wids = {10, 11, 12, 13, 15, 16, 20, 21, 33, 50}
  Dxs = {1, 2, 3}
  L0s = {1, 2, 3, 5, 9}
  N0s = {1, 3, 4, 5, 6, 7, 11}
INVARIANTS InletWide QuarterAtMost AsConfigured Closed Opens Centred
CHECK_DEADLOCK FALSE
