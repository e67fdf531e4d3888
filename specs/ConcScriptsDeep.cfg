SPECIFICATION Spec
CONSTANTS
 Len0 = 5
 Cmds = {"add", "resolve", "reset", "gate", "cancel"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
