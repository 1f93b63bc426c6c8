INIT GStart
NEXT GNext
CONSTANTS
 MaxP = 2
 Forms = {0}
 GInit <- GlInit
 GenOps <- GlGenOps
 Outcomes <- GlOutcomes
 SInv <- GlInv
 Depth = 2
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
