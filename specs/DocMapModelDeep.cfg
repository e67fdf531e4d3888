SPECIFICATION Spec
CONSTANTS MaxOps = 4
  MaxMaps = 2
INVARIANTS OneForEachKey OfDoc
PROPERTIES Frame
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
