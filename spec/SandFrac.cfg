SPECIFICATION Spec
CONSTANTS
  Mixes = {0, 250000, 1000000}
  BC = 100000
  Steps = 6
INVARIANTS Bounded Remembers Known
PROPERTIES OnlyBed FromBelow
CHECK_DEADLOCK FALSE
