INIT GStart
NEXT GNext
CONSTANTS
 GInit <- MInit
 GenOps <- MGenOps
 Outcomes <- MOutcomes
 SInv <- MInvariant
 Depth = 3
 NKeys = 3
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
