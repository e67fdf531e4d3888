SPECIFICATION MSpec
CONSTANTS MaxLen = 1  MaxNest = 1
INVARIANTS AcceptedMeansEncoded
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
