INIT GStart
NEXT GNext
CONSTANTS
 GInit <- CInit
 GenOps <- CGenOps
 Outcomes <- COutcomes
 SInv <- CInvariant
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
