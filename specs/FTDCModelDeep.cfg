CONSTANTS MaxSamples = 3 Wide2 = FALSE
SPECIFICATION Spec
INVARIANTS Decodes Laws Emit
CHECK_DEADLOCK FALSE
