CONSTANTS W = 1 WB = 1 NB = 2 Q = 2 T = 1 MaxWords = 17
SPECIFICATION Spec
INVARIANTS WholeWords PartialWord Supers Blocks Samples
CHECK_DEADLOCK FALSE
