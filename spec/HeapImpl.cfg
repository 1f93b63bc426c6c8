SPECIFICATION Spec
CONSTANTS
  N = 6
  K = 3
  MinHeap = 2
INVARIANTS InsertionSorts HeapSorts HeapSelects
CHECK_DEADLOCK FALSE
