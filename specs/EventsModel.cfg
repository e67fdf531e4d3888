SPECIFICATION Spec
CONSTANTS MaxOps = 3  Kinds <- KindsQuick  Docs = TRUE
INVARIANTS Laws Counts RoundTrip Emit Once
CHECK_DEADLOCK FALSE
