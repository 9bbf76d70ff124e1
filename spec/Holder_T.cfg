SPECIFICATION SSpec
CONSTANTS
  S0 <- HolderS0
  Step <- HolderStep
INVARIANT Report
CHECK_DEADLOCK FALSE
