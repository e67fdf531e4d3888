SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  Sizes = {1, 5, 100}
INVARIANTS Framing Emit
CHECK_DEADLOCK FALSE
