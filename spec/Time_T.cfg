SPECIFICATION SSpec
CONSTANTS
  S0 <- TimeS0
  Step <- TimeStep
INVARIANT Report
CHECK_DEADLOCK FALSE
