CONSTANTS TH = 2 MaxN = 9 MaxV = 8 MaxL = 3
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
