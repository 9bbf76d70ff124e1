SPECIFICATION Spec
CONSTANTS
  MaxN = 9
  MaxUpd = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
