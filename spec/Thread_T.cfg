SPECIFICATION LSpec
CONSTANTS
  S0 <- ThS0
  Apply <- ThApply
  MayBlock <- DefMayBlock
  Final <- ThFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
