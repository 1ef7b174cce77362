CONSTANTS K = 1 MaxN = 12
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
