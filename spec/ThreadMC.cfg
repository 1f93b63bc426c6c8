SPECIFICATION MSpec
CONSTANTS
 Threads = {2, 3, 4}
 Rounds = 1
INVARIANT Exclusive
INVARIANT WriteHolds
INVARIANT NoLostUpdate
INVARIANT Joined
PROPERTY Ends
CHECK_DEADLOCK FALSE
