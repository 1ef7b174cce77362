CONSTANTS
 Slots = {1, 2, 3}
 Depth = 30
 MaxLen = 400
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
