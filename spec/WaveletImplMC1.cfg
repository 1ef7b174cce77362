CONSTANTS K = 1 MaxN = 7
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
