SPECIFICATION Spec
CONSTANTS MaxOps = 4  Kinds <- KindsAll  Docs = TRUE
INVARIANTS Laws Counts RoundTrip Emit Once
CHECK_DEADLOCK FALSE
