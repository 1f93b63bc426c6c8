SPECIFICATION TSpec
CONSTANTS
 InitSt <- ATInit
 Accept <- AAccept
CHECK_DEADLOCK FALSE
