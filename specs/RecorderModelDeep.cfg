SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Kinds = {"raw", "group", "single"}
  Extra <- ExtraDeep
CHECK_DEADLOCK FALSE
INVARIANT Laws
INVARIANT Emit
