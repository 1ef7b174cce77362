SPECIFICATION Spec
CONSTANT N = 7
INVARIANT Inv
CHECK_DEADLOCK FALSE
