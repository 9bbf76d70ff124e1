SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
