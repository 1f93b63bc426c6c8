SPECIFICATION TSpec
CONSTANTS
 InitSt <- RgTInit
 Accept <- RgAccept
CHECK_DEADLOCK FALSE
