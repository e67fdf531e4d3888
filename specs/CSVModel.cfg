SPECIFICATION Spec
CONSTANT MaxTok = 5
INVARIANTS Emit Sane
CHECK_DEADLOCK FALSE
