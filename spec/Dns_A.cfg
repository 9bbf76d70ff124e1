SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Keys = {k1, k2}
  Cap = 1
  Life = 2
  MaxTime = 3
  MaxRes = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
