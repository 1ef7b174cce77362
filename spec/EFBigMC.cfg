SPECIFICATION Spec
CONSTANTS P = 2 L = 2
Firsts <- FirstsQ
Steps <- StepsQ
INVARIANT Inv
CHECK_DEADLOCK FALSE
