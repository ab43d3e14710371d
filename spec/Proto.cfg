SPECIFICATION Spec
CONSTANTS MaxPass = 4
INVARIANTS OncePerStep ClockOK OutputAfterClock NothingAfterFinal
CHECK_DEADLOCK FALSE
