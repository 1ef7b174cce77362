CONSTANTS K = 3 MaxN = 3
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
