SPECIFICATION TSpec
CONSTANTS
 InitSt <- VTInit
 Accept <- VAccept
CHECK_DEADLOCK FALSE
