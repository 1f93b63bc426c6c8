SPECIFICATION TSpec
CONSTANTS
 InitSt <- RTInit
 Accept <- RAccept
CHECK_DEADLOCK FALSE
