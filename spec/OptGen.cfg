INIT GStart
NEXT GNext
CONSTANTS
 World = 0
 GInit <- OGStart
 GenOps <- OGenOps
 Outcomes <- OOutcomes
 SInv <- OGInv
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
