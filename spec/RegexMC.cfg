INIT RInit
NEXT RNext
CONSTANTS
 Size = 3
 MaxLen = 3
INVARIANT Sound
INVARIANT Greedy
CHECK_DEADLOCK FALSE
