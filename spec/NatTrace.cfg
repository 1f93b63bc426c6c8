SPECIFICATION TSpec
CONSTANTS
 InitSt <- NTInit
 Accept <- NAccept
CHECK_DEADLOCK FALSE
