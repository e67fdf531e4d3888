SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Kinds = {"interval"}
  Extra <- ExtraDeep
CHECK_DEADLOCK FALSE
INVARIANT Laws
INVARIANT Emit
