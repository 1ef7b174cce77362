CONSTANT MaxLen = 9
SPECIFICATION BSpec
CONSTRAINT Constr
INVARIANTS OpenInv OutcomeInv Emit
CHECK_DEADLOCK FALSE
