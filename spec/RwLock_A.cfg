SPECIFICATION ASpec
CONSTANTS
  Thr = {1, 2, 3}
  MaxOps = 3
  Apply <- RwApply
  MayBlock <- RwMayBlock
  Ops <- RwOps
  MC0 <- RwMC0
  Inv <- RwInv
INVARIANTS StateInv NobodyStuck
CHECK_DEADLOCK FALSE
