SPECIFICATION TSpec
CONSTANTS
 InitSt <- BTInit
 Accept <- BAccept
CHECK_DEADLOCK FALSE
