SPECIFICATION MSpec
CONSTANTS
 MaxLen = 3
 Small = TRUE
INVARIANT Within
INVARIANT Sound
INVARIANT LastWins
INVARIANT Rest
INVARIANT Joined
INVARIANT Final
INVARIANT Limits
PROPERTY Forward
PROPERTY Ends
CHECK_DEADLOCK FALSE
