INIT GStart
NEXT GNext
CONSTANTS
 GInit <- FGInit
 GenOps <- FGenOps
 Outcomes <- FOutcomes
 SInv <- FInvariant
 Cap = 2
 Depth = 3
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
