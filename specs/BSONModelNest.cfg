SPECIFICATION Spec
CONSTANTS MaxLen = 1  MaxNest = 3
INVARIANTS RoundTrip LengthIsSize TrailingIgnored PrefixRejected LengthPinned Canonical
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
