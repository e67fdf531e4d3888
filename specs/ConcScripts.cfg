SPECIFICATION Spec
CONSTANTS
 Len0 = 4
 Cmds = {"add", "bad", "meta", "resolve", "reset", "gate", "cancel"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
