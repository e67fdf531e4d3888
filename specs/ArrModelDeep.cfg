SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS DenseKeys DeleteShifts
CHECK_DEADLOCK FALSE
