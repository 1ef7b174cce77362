SPECIFICATION Spec
CONSTANTS
  MaxPieces = 3
  MaxLen = 3
  MaxVal = 3
INVARIANTS
  SizeOk
  MinOk
CHECK_DEADLOCK FALSE
