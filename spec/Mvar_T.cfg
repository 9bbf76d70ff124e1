SPECIFICATION LSpec
CONSTANTS
  S0 <- MvS0
  Apply <- MvApply
  MayBlock <- DefMayBlock
  Final <- DefFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
