SPECIFICATION TSpec
CONSTANTS
 InitSt <- MTInit
 Accept <- MAccept
CHECK_DEADLOCK FALSE
