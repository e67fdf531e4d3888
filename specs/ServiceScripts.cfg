SPECIFICATION Spec
CONSTANTS
  MaxRegs = 2
  MaxBursts = 1
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
