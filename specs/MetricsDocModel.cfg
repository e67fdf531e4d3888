SPECIFICATION Spec
CONSTANTS MaxCount = 8
  MaxSteps = 4
INVARIANTS Known AddUp OwnNames
CHECK_DEADLOCK FALSE
