CONSTANTS M = 9
 Q = 2
 T = 1
 MaxLeaves = 10
 Closing = "same"
 Probe = "exact"
SPECIFICATION Spec
INVARIANTS Short Found
CHECK_DEADLOCK FALSE
