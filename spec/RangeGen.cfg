INIT GStart
NEXT GNext
CONSTANTS

 GInit <- RInit
 GenOps <- RGenOps
 Outcomes <- ROutcomes
 SInv <- RGInv
 Depth = 4
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
