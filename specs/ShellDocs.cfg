SPECIFICATION Spec
CONSTANTS
  MaxElems = 2
INVARIANTS Arrives Told Emit
CHECK_DEADLOCK FALSE
