CONSTANTS M = 8
 Q = 2
 T = 1
 MaxLeaves = 60
 Closing = "last"
 Probe = "exact"
SPECIFICATION Spec
INVARIANTS Short Found
CHECK_DEADLOCK FALSE
