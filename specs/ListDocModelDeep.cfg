SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS Agree Ends DeletesFirst
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
