CONSTANTS MaxN = 13 MaxC = 5
SPECIFICATION Spec
INVARIANTS Searches Matching Unique Trees
CHECK_DEADLOCK FALSE
