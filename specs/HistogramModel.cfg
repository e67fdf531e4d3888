SPECIFICATION Spec
CONSTANTS MaxRec = 1
  Full = FALSE
INVARIANTS InRange Precise Counted Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
