SPECIFICATION Spec
CONSTANTS
  N = 6
  K = 3
  Limit = 3
  MinHeap = 1
  MaxRounds = 3
INVARIANTS Sorts Selects Partitions
CHECK_DEADLOCK FALSE
