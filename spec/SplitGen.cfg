INIT GStart
NEXT GNext
CONSTANTS
 GInit = 0
 GenOps <- PGenOps
 Outcomes <- POutcomes
 SInv <- PSInv
 Depth = 1
 MaxT = 3
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
