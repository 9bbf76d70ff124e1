SPECIFICATION SSpec
CONSTANTS
  S0 <- HttpS0
  Step <- HttpStep
INVARIANT Report
CHECK_DEADLOCK FALSE
