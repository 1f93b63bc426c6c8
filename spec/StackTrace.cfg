SPECIFICATION TSpec
CONSTANTS
 InitSt <- STInit
 Accept <- SAccept
CHECK_DEADLOCK FALSE
