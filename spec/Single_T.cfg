SPECIFICATION LSpec
CONSTANTS
  S0 <- SgS0
  Apply <- SgApply
  MayBlock <- DefMayBlock
  Final <- DefFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
