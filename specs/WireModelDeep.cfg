SPECIFICATION Spec
CONSTANTS MaxMut = 1 Rich = TRUE
INVARIANTS RoundTrip Framed Emit
CHECK_DEADLOCK FALSE
