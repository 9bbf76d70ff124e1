SPECIFICATION Spec
CONSTANTS
  Cap = 2
  K = {1, 2, 3}
  MaxT = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
