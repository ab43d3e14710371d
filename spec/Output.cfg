SPECIFICATION Spec
CONSTANTS
  Dts = {1, 2, 3}
  Saves = {1, 2, 5}
  MaxIt = 5
  MaxOps = 4
  OnSets = {{}, {"save_metadata"}, {"save_eta_grids", "save_velocity_figs"}}
INVARIANTS Scheduled NotLate NothingBeforeAsked UniqueNames
CHECK_DEADLOCK FALSE
