CONSTANTS MaxN = 5 MaxV = 3
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
