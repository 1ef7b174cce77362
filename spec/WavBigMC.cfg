SPECIFICATION Spec
CONSTANTS P = 3 L = 2 M = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
