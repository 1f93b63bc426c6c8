SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
