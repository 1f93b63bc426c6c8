SPECIFICATION TSpec
CONSTANTS
 InitSt <- XTInit
 Accept <- XAccept
CHECK_DEADLOCK FALSE
