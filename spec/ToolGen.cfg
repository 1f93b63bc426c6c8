INIT GStart
NEXT GNext
CONSTANTS
 GInit = 0
 GenOps <- ToGenOps
 Outcomes <- ToOutcomes
 SInv <- ToInv
 Depth = 1
 MaxT = 3
 MaxN = 3
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
