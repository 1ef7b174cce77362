SPECIFICATION Spec
CONSTANT N = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
