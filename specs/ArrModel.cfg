SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS DenseKeys DeleteShifts
CHECK_DEADLOCK FALSE
