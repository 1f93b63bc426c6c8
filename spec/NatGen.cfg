INIT GStart
NEXT GNext
CONSTANTS
 GInit = 0
 GenOps <- NGenOps
 Outcomes <- NOutcomes
 SInv <- NSInv
 Depth = 1
 MaxT = 2
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
