INIT GStart
NEXT GNext
CONSTANTS
 World = 0
 GInit <- WGStart
 GenOps <- WGenOps
 Outcomes <- WOutcomes
 SInv <- WGInv
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
