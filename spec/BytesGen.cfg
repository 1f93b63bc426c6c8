INIT GStart
NEXT GNext
CONSTANTS
 GInit <- BInit
 GenOps <- BGenOps
 Outcomes <- BOutcomes
 SInv <- BInvariant
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
