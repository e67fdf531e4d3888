SPECIFICATION Spec
CONSTANTS MaxMut = 0 Rich = TRUE
INVARIANTS EmitX
CHECK_DEADLOCK FALSE
