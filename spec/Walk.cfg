SPECIFICATION Spec
CONSTANTS
  StepMax = 8
INVARIANTS Inside NeverOnLand EdgeEnds FlagKnown
CHECK_DEADLOCK FALSE
