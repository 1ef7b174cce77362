CONSTANT N = 9
SPECIFICATION Spec
INVARIANTS Canonical Complement Total Bits Ranks Clips Expands Steps Selects RankOfSelect
CHECK_DEADLOCK FALSE
