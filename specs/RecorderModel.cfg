SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Kinds = {"raw", "group", "single", "interval"}
  Extra <- ExtraQuick
CHECK_DEADLOCK FALSE
INVARIANT Laws
INVARIANT Emit
