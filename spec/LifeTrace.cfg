SPECIFICATION TSpec
CONSTANTS
 InitSt <- LfTInit
 Accept <- LfAccept
CHECK_DEADLOCK FALSE
