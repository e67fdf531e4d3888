SPECIFICATION Spec
CONSTANTS MaxLen = 2  MaxNest = 2
INVARIANTS RoundTrip LengthIsSize TrailingIgnored PrefixRejected LengthPinned Canonical
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
