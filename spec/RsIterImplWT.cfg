CONSTANTS W = 2 WB = 2 NB = 2 Q = 4 T = 1 MaxWords = 6 MaxSkip = 3 Zero = TRUE
SPECIFICATION Spec
INVARIANTS Answers Exact
CHECK_DEADLOCK FALSE
