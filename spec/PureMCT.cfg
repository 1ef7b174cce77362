SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Cells = 3
  Memo = 0
  MaxAsks = 3
  MaxSwaps = 2
INVARIANT Pure1
CHECK_DEADLOCK FALSE
