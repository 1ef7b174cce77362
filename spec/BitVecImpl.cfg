CONSTANTS W = 2 MaxLen = 5
SPECIFICATION Spec
INVARIANTS Refines Shape TidyIsClean Counting Ranges JunkBlind
CHECK_DEADLOCK FALSE
