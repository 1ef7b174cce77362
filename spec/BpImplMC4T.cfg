CONSTANTS BS = 2 LB = 3 MaxN = 14
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
