SPECIFICATION Spec
CONSTANTS
  Sl0s <- Sl0s1
  Rates <- Rates1
  Starts = {0, 3, 6, 7}
  Slrs <- Slrs1
  Dts = {2, 3}
  MaxIt = 4
INVARIANTS LandStays SinksAsConfigured SeaLevel Constant
VIEW View
CHECK_DEADLOCK FALSE
