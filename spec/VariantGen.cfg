INIT GStart
NEXT GNext
CONSTANTS
 World = 0
 GInit <- VGStart
 GenOps <- VGenOps
 Outcomes <- VOutcomes
 SInv <- VGInv
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
