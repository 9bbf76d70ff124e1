SPECIFICATION MSpec
CONSTANTS
  Thr = {1, 2, 3}
  MaxOps = 2
  Apply <- ChApply
  Ops <- ChOps
  MC0 <- ChMC0
  Inv <- ChInv
  StepOk <- ChStep
INVARIANTS StateInv MutexInv NoLostWakeup
PROPERTIES Steps
CHECK_DEADLOCK FALSE
