SPECIFICATION SSpec
CONSTANTS
  S0 <- CgiS0
  Step <- CgiStep
INVARIANT Report
CHECK_DEADLOCK FALSE
