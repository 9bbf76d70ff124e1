SPECIFICATION Spec
CONSTANTS
  WB = 3
  RB = 2
  K = 3
  N = 5
  Conns = 2
INVARIANT Inv
PROPERTY Arrives
CHECK_DEADLOCK FALSE
