INIT GStart
NEXT GNext
CONSTANTS
 GInit <- UInit
 GenOps <- UGenOps
 Outcomes <- UOutcomes
 SInv <- UInvariant
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
