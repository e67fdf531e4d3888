SPECIFICATION Spec
CONSTANTS
  Conns = {1, 2}
  MaxBurst = 2
INVARIANTS Served Replied
PROPERTY Ends
CHECK_DEADLOCK FALSE
