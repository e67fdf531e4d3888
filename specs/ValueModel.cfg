SPECIFICATION Spec
CONSTANTS MaxLen = 1
INVARIANTS Frame EqIsEncoding
CHECK_DEADLOCK FALSE
