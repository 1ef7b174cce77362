CONSTANTS W = 2 WB = 2 NB = 2 Q = 4 T = 1 MaxWords = 5
SPECIFICATION Spec
INVARIANTS WholeWords PartialWord Supers Blocks Samples
CHECK_DEADLOCK FALSE
