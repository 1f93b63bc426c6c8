SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  NKeys = 3
  What = 1
CHECK_DEADLOCK FALSE
