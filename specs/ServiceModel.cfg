SPECIFICATION Spec
CONSTANTS
  Conns = {1, 2}
  MaxBurst = 1
INVARIANTS Served Replied
PROPERTY Ends
CHECK_DEADLOCK FALSE
