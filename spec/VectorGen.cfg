INIT GStart
NEXT GNext
CONSTANTS
 GInit <- VInit
 GenOps <- VGenOps
 Outcomes <- VOutcomes
 SInv <- VInv
 GVals = {1, 2}
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
