CONSTANTS W = 1 WB = 1 NB = 2 Q = 2 T = 1 MaxWords = 7 MaxSkip = 3 Zero = FALSE
SPECIFICATION Spec
INVARIANTS Answers Exact
CHECK_DEADLOCK FALSE
