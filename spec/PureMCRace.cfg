SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Cells = 2
  Memo = 1
  MaxAsks = 3
  MaxSwaps = 0
INVARIANT Pure1
CHECK_DEADLOCK FALSE
