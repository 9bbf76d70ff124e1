SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Keys = {k1, k2, k3}
  Cap = 2
  Life = 2
  MaxTime = 4
  MaxRes = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
