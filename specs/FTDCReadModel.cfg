SPECIFICATION Spec
CONSTANTS MaxMut = 1 Which = {1,2,3,4}
INVARIANTS Judged Emit
CHECK_DEADLOCK FALSE
