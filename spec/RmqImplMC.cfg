CONSTANTS BS = 2 MaxN = 7 MaxV = 2
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
