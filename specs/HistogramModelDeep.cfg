SPECIFICATION Spec
CONSTANTS MaxRec = 2
  Full = TRUE
INVARIANTS InRange Precise Counted Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
