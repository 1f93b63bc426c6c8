INIT GStart
NEXT GNext
CONSTANTS
 Size = 3
 Subjects <- Few
 GInit <- RgInit
 GenOps <- RgGenOps
 Outcomes <- RgOutcomes
 SInv <- RgInv
 Depth = 1
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
