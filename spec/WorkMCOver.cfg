CONSTANTS M = 9
 Q = 2
 T = 1
 MaxLeaves = 10
 Closing = "last"
 Probe = "over"
SPECIFICATION Spec
INVARIANTS Short Found
CHECK_DEADLOCK FALSE
