SPECIFICATION TSpec
CONSTANTS
 InitSt <- ToTInit
 Accept <- ToAccept
CHECK_DEADLOCK FALSE
