SPECIFICATION LSpec
CONSTANTS
  S0 <- PcS0
  Apply <- PcApply
  MayBlock <- DefMayBlock
  Final <- DefFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
