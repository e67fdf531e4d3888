SPECIFICATION Spec
CONSTANTS MaxNest = 4
INVARIANTS Total Back
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
