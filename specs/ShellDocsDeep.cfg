SPECIFICATION Spec
CONSTANTS
  MaxElems = 3
INVARIANTS Arrives Told Emit
CHECK_DEADLOCK FALSE
