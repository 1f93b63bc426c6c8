SPECIFICATION TSpec
CONSTANTS
 InitSt <- AgTInit
 Accept <- AgAccept
CHECK_DEADLOCK FALSE
