INIT GStart
NEXT GNext
CONSTANTS
 MaxT = 4
 What = 1
 GInit <- PInit
 GenOps <- PGenOps
 Outcomes <- POutcomes
 SInv <- PGInv
 Depth = 1
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
