SPECIFICATION Spec
CONSTANTS
 Alphabet = {48, 49, 57, 97}
 MaxLen = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
