INIT GStart
NEXT GNext
CONSTANTS

 GInit <- EInit
 GenOps <- EGenOps
 Outcomes <- EOutcomes
 SInv <- EGInv
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
