SPECIFICATION SSpec
CONSTANTS
  S0 <- WebS0
  Step <- WebStep
INVARIANT Report
CHECK_DEADLOCK FALSE
