SPECIFICATION Spec
CONSTANTS MaxCount = 16
  MaxSteps = 8
INVARIANTS Known AddUp OwnNames
CHECK_DEADLOCK FALSE
