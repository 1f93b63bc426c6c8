INIT GStart
NEXT GNext
CONSTANTS
 MaxT = 2
 GInit <- AgInit
 GenOps <- AgGenOps
 Outcomes <- AgOutcomes
 SInv <- AgInv
 Depth = 6
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
