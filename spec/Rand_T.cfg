SPECIFICATION SSpec
CONSTANTS
  S0 <- RandS0
  Step <- RandStep
INVARIANT Report
CHECK_DEADLOCK FALSE
