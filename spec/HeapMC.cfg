SPECIFICATION Spec
CONSTANTS
  W = 2
  MaxLen = 7
  MaxOps = 7
INVARIANTS
  HeldIsCap
  Reportable
  Growable
CHECK_DEADLOCK FALSE
