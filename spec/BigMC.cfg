SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
