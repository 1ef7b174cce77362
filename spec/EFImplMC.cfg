CONSTANTS TH = 2 MaxN = 7 MaxV = 6 MaxL = 3
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
