INIT GStart
NEXT GNext
CONSTANTS
 GInit <- XGInit
 GenOps <- XGenOps
 Outcomes <- XOutcomes
 SInv <- XInvariant
 Cap = 3
 Depth = 3
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
