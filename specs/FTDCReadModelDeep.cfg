SPECIFICATION Spec
CONSTANTS MaxMut = 2 Which = {1}
INVARIANTS Judged Emit
CHECK_DEADLOCK FALSE
