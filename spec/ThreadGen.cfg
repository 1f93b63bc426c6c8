INIT GStart
NEXT GNext
CONSTANTS
 Workers = {2, 3}
 GInit <- TgInit
 GenOps <- TgGenOps
 Outcomes <- TgOutcomes
 SInv <- TgInv
 Depth = 4
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
