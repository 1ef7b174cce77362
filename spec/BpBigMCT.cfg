SPECIFICATION Spec
CONSTANTS
  MaxPieces = 5
  MaxLen = 4
INVARIANT Agree
CHECK_DEADLOCK FALSE
