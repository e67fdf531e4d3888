SPECIFICATION Spec
CONSTANTS MaxOps = 3
INVARIANTS Agree Ends DeletesFirst
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
