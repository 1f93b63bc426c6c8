SPECIFICATION TSpec
CONSTANTS
 InitSt <- ThTInit
 Accept <- ThAccept
CHECK_DEADLOCK FALSE
