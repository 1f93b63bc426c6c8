SPECIFICATION TSpec
CONSTANTS
 InitSt <- WTInit
 Accept <- WAccept
CHECK_DEADLOCK FALSE
