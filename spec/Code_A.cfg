SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
