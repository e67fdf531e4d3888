SPECIFICATION Spec
CONSTANT MaxTok = 6
INVARIANTS Emit Sane
CHECK_DEADLOCK FALSE
