SPECIFICATION SSpec
CONSTANTS
  S0 <- XhtmlS0
  Step <- XhtmlStep
INVARIANT Report
CHECK_DEADLOCK FALSE
