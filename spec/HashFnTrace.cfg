SPECIFICATION TSpec
CONSTANTS
 InitSt <- HTInit
 Accept <- HAccept
CHECK_DEADLOCK FALSE
