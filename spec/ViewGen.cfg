INIT GStart
NEXT GNext
CONSTANTS
 GInit = 0
 GenOps <- VGenOps
 Outcomes <- VOutcomes
 SInv <- VSInv
 Depth = 1
 MaxT = 3
 MaxZ = 2
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
