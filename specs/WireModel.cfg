SPECIFICATION Spec
CONSTANTS MaxMut = 1 Rich = FALSE
INVARIANTS RoundTrip Framed Emit
CHECK_DEADLOCK FALSE
