SPECIFICATION SSpec
CONSTANTS
  S0 <- CodeS0
  Step <- CodeStep
INVARIANT Report
CHECK_DEADLOCK FALSE
