CONSTANTS W = 4 MaxLen = 9
SPECIFICATION Spec
INVARIANTS Refines Shape TidyIsClean Counting Ranges JunkBlind
CHECK_DEADLOCK FALSE
