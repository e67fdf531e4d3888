SPECIFICATION Spec
CONSTANTS MaxMut = 0 Rich = FALSE
INVARIANTS EmitX
CHECK_DEADLOCK FALSE
