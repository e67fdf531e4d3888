SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS SetThenLookup DeleteRemovesOne SortedIsPermutation
CHECK_DEADLOCK FALSE
