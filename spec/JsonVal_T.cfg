SPECIFICATION SSpec
CONSTANTS
  S0 <- JsonValS0
  Step <- JsonValStep
INVARIANT Report
CHECK_DEADLOCK FALSE
