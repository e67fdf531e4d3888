CONSTANTS MaxSamples = 2 Wide2 = FALSE
SPECIFICATION Spec
INVARIANTS Decodes Laws Emit
CHECK_DEADLOCK FALSE
