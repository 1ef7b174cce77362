CONSTANTS MaxN = 10 MaxC = 4
SPECIFICATION Spec
INVARIANTS Searches Matching Unique Trees
CHECK_DEADLOCK FALSE
