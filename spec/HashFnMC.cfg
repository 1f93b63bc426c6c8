INIT MInit
NEXT MNext
CONSTANTS
 MaxLen = 6
 Alphabet = {0, 1, 128, 255}
INVARIANT Pieces
CHECK_DEADLOCK FALSE
