CONSTANTS BS = 2 MaxN = 11 MaxV = 2
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
