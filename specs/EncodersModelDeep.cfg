SPECIFICATION Spec
CONSTANTS MaxElems = 3
  MaxStart = 9
INVARIANTS Sequence
CHECK_DEADLOCK FALSE
