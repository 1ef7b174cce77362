CONSTANTS M = 11
 Q = 2
 T = 1
 MaxLeaves = 300
 Closing = "last"
 Probe = "exact"
SPECIFICATION Spec
INVARIANTS Short Found
CHECK_DEADLOCK FALSE
