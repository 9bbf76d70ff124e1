SPECIFICATION ASpec
CONSTANTS
  Thr = {1, 2, 3, 4}
  MaxOps = 3
  Apply <- ThApply
  MayBlock <- ThMayBlock
  Ops <- ThOps
  MC0 <- ThMC0
  Inv <- ThInv
INVARIANTS StateInv NobodyStuck
CHECK_DEADLOCK FALSE
