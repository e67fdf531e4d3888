SPECIFICATION Spec
CONSTANTS
  MaxParts = 3
  Sizes = {1, 16}
INVARIANTS Framing Emit
CHECK_DEADLOCK FALSE
