SPECIFICATION Spec
CONSTANTS MaxElems = 2
  MaxStart = 2
INVARIANTS Sequence
CHECK_DEADLOCK FALSE
