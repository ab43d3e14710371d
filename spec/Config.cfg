SPECIFICATION Spec
INVARIANTS RightOutcome RightValue NoOutputIfRefused
CHECK_DEADLOCK FALSE
