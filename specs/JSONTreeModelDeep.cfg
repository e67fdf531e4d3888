SPECIFICATION Spec
CONSTANTS MaxOps = 5
  MaxRoots = 3
INVARIANTS Back CopiesApart
PROPERTIES Frame
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
