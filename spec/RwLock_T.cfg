SPECIFICATION LSpec
CONSTANTS
  S0 <- RwS0
  Apply <- RwApply
  MayBlock <- RwMayBlock
  Final <- DefFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
