SPECIFICATION Spec
CONSTANTS
  MaxPieces = 4
  MaxLen = 3
INVARIANT Agree
CHECK_DEADLOCK FALSE
