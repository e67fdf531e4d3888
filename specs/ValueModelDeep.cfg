SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS Frame EqIsEncoding
CHECK_DEADLOCK FALSE
