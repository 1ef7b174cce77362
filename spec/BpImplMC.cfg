CONSTANTS BS = 2 LB = 1 MaxN = 8
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
