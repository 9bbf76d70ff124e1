SPECIFICATION LSpec
CONSTANTS
  S0 <- ChS0
  Apply <- ChApply
  MayBlock <- DefMayBlock
  Final <- DefFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
