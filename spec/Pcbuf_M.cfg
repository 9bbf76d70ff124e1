SPECIFICATION MSpec
CONSTANTS
  Thr = {1, 2, 3}
  MaxOps = 2
  Apply <- PcApply
  Ops <- PcOps
  MC0 <- PcMC0
  Inv <- PcInv
  StepOk <- PcStep
INVARIANTS StateInv MutexInv NoLostWakeup
PROPERTIES Steps
CHECK_DEADLOCK FALSE
