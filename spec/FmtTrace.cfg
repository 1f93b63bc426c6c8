SPECIFICATION TSpec
CONSTANTS
 InitSt <- FTInit
 Accept <- FAccept
CHECK_DEADLOCK FALSE
