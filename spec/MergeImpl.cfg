SPECIFICATION Spec
CONSTANTS
  N = 9
  K = 2
  Limit = 1
INVARIANTS Sorts
CHECK_DEADLOCK FALSE
