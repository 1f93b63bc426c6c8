SPECIFICATION TSpec
CONSTANTS
 InitSt <- GlTInit
 Accept <- GlAccept
CHECK_DEADLOCK FALSE
