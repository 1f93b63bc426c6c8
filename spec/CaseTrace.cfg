SPECIFICATION TSpec
CONSTANTS
 InitSt <- KTInit
 Accept <- KAccept
CHECK_DEADLOCK FALSE
