SPECIFICATION LSpec
CONSTANTS
  S0 <- SyS0
  Apply <- SyApply
  MayBlock <- DefMayBlock
  Final <- DefFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
