SPECIFICATION Spec
CONSTANTS P = 2 L = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
