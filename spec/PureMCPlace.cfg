SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Cells = 2
  Memo = 2
  MaxAsks = 3
  MaxSwaps = 1
INVARIANT Pure1
CHECK_DEADLOCK FALSE
