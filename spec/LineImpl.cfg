SPECIFICATION LSpec
CONSTANTS
 MaxLen = 5
 Alphabet = {10, 0, 97}
 LookAhead = TRUE
INVARIANT Exactly
INVARIANT Prefix
PROPERTY Terminates
CHECK_DEADLOCK FALSE
