SPECIFICATION Spec
CONSTANTS
  MaxBody = 4
  MaxRest = 1
  Bytes = {13, 10, 48, 255}
INVARIANT Inv
CHECK_DEADLOCK FALSE
