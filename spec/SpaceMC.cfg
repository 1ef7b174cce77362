SPECIFICATION Spec
CONSTANTS
  MaxN = 3000
  MaxEF = 70
  MaxE = 28
INVARIANTS
  LayoutFits
