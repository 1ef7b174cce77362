CONSTANTS BS = 3 MaxN = 15 MaxV = 1
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
