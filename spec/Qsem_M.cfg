SPECIFICATION MSpec
CONSTANTS
  Thr = {1, 2, 3}
  MaxOps = 2
  Apply <- QsApply
  Ops <- QsOps
  MC0 <- QsMC0
  Inv <- QsInv
  StepOk <- QsStep
INVARIANTS StateInv MutexInv NoLostWakeup
PROPERTIES Steps
CHECK_DEADLOCK FALSE
