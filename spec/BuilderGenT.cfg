CONSTANT MaxLen = 14
SPECIFICATION BSpec
CONSTRAINT Constr
INVARIANTS OpenInv OutcomeInv Emit
CHECK_DEADLOCK FALSE
