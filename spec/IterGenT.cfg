CONSTANTS MaxN = 4 Depth = 4
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
