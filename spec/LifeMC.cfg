SPECIFICATION LSpec
CONSTANTS
 Blocks = 4
 MaxCap = 4
 Depth = 8
INVARIANT Accepted
INVARIANT Contained
INVARIANT OwnedBlocks
INVARIANT EndsEmpty
CHECK_DEADLOCK FALSE
