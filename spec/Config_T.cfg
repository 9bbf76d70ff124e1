SPECIFICATION SSpec
CONSTANTS
  S0 <- ConfigS0
  Step <- ConfigStep
INVARIANT Report
CHECK_DEADLOCK FALSE
