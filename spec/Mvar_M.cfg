SPECIFICATION MSpec
CONSTANTS
  Thr = {1, 2, 3}
  MaxOps = 2
  Apply <- MvApply
  Ops <- MvOps
  MC0 <- MvMC0
  Inv <- MvInv
  StepOk <- MvStep
INVARIANTS StateInv MutexInv NoLostWakeup
PROPERTIES Steps
CHECK_DEADLOCK FALSE
