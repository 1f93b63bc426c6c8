INIT GStart
NEXT GNext
CONSTANTS
 GInit <- SInit2
 GenOps <- SGenOps
 Outcomes <- SOutcomes
 SInv <- SGInv
 Depth = 3
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
