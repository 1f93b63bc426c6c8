SPECIFICATION TSpec
CONSTANTS
 InitSt <- ETInit
 Accept <- EAccept
CHECK_DEADLOCK FALSE
