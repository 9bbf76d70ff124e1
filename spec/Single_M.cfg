SPECIFICATION MSpec
CONSTANTS
  Thr = {1, 2, 3}
  MaxOps = 2
  Apply <- SgApply
  Ops <- SgOps
  MC0 <- SgMC0
  Inv <- SgInv
  StepOk <- SgStep
INVARIANTS StateInv MutexInv NoLostWakeup
PROPERTIES Steps
CHECK_DEADLOCK FALSE
