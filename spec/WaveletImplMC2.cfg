CONSTANTS K = 2 MaxN = 4
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
