SPECIFICATION TSpec
CONSTANTS
 InitSt <- UTInit
 Accept <- UAccept
CHECK_DEADLOCK FALSE
