SPECIFICATION LSpec
CONSTANTS
  S0 <- QsS0
  Apply <- QsApply
  MayBlock <- DefMayBlock
  Final <- DefFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
