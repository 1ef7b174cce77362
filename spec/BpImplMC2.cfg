CONSTANTS BS = 3 LB = 2 MaxN = 8
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
