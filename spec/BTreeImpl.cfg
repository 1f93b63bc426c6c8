SPECIFICATION Spec
CONSTANTS
  N = 6
  E = 3
INVARIANTS Refines Ordered Balanced Filled Linked
CHECK_DEADLOCK FALSE
