SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Kinds = {"hraw", "hgroup", "hsingle", "hinterval"}
  Extra <- ExtraQuick
CHECK_DEADLOCK FALSE
INVARIANT Laws
INVARIANT Emit
