SPECIFICATION Spec
CONSTANTS MaxOps = 4
  MaxRoots = 2
INVARIANTS Back CopiesApart
PROPERTIES Frame
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
