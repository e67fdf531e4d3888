SPECIFICATION MSpec
CONSTANTS MaxLen = 1  MaxNest = 2
INVARIANTS AcceptedMeansEncoded
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
