SPECIFICATION TSpec
CONSTANTS
 InitSt <- OTInit
 Accept <- OAccept
CHECK_DEADLOCK FALSE
