CONSTANTS MaxN = 4 MaxV = 2
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
