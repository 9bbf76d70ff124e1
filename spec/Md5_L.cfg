SPECIFICATION LSpec
CONSTANTS
  S0 <- MdS0
  Apply <- MdApply
  MayBlock <- DefMayBlock
  Final <- DefFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
