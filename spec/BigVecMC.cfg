SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
