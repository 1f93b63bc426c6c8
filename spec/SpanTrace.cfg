SPECIFICATION TSpec
CONSTANTS
 InitSt <- PTInit
 Accept <- PAccept
CHECK_DEADLOCK FALSE
