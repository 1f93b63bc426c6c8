SPECIFICATION WSpec
CONSTANTS
 MaxP = 2
INVARIANT NoDuplicates
INVARIANT OnlyMatches
INVARIANT Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
