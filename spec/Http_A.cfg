SPECIFICATION Spec
CONSTANTS
  MaxBody = 3
  MaxRest = 1
  Bytes = {13, 10, 255}
INVARIANT Inv
CHECK_DEADLOCK FALSE
