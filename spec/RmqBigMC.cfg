SPECIFICATION Spec
CONSTANTS
  MaxPieces = 2
  MaxLen = 3
  MaxVal = 2
INVARIANTS
  SizeOk
  MinOk
CHECK_DEADLOCK FALSE
