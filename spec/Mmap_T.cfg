SPECIFICATION SSpec
CONSTANTS
  S0 <- MmapS0
  Step <- MmapStep
INVARIANT Report
CHECK_DEADLOCK FALSE
