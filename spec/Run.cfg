SPECIFICATION Spec
CONSTANTS
  Dts = {1, 2, 3}
  Switch = {3, 99}
  Saves = {1, 2, 4, 5}
  Cks = {0, 1, 3, 4}
  MaxIt = 6
  MaxCrash = 2
INVARIANTS
  SameAsUninterrupted
  RecordsOfReference
  Schedule
  NothingLost
  BoundedLoss
  NoCheckpointWhenOff
CHECK_DEADLOCK FALSE
