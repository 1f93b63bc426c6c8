SPECIFICATION TSpec
CONSTANTS
 InitSt <- CTInit
 Accept <- CAccept
CHECK_DEADLOCK FALSE
