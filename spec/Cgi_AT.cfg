SPECIFICATION Spec
CONSTANTS
  Bytes = {13, 10, 45, 88}
  MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
