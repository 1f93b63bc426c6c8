SPECIFICATION Spec
CONSTANTS
 Keys = {1, 2, 3, 4}
 Cap = 4
 Limit = 3
 MaxCap = 8
 Vals = {1}
INVARIANTS Refines NoDuplicates
CHECK_DEADLOCK FALSE
