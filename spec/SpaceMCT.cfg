SPECIFICATION Spec
CONSTANTS
  MaxN = 60000
  MaxEF = 400
  MaxE = 28
INVARIANTS
  LayoutFits
