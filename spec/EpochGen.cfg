INIT GStart
NEXT GNext
CONSTANTS
 GInit <- EInit
 GenOps <- EGenOps
 Outcomes <- EOutcomes
 SInv <- ESInv
 Depth = 3
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
