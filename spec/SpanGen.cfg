INIT GStart
NEXT GNext
CONSTANTS
 MaxT = 3
 GInit <- PInit
 GenOps <- PGenOps
 Outcomes <- POutcomes
 SInv <- PGInv
 Depth = 1
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
