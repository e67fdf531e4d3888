SPECIFICATION Spec
CONSTANTS MaxNest = 1
INVARIANTS Total Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
