SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS SetThenLookup DeleteRemovesOne SortedIsPermutation
CHECK_DEADLOCK FALSE
