SPECIFICATION SSpec
CONSTANTS
  S0 <- SerialS0
  Step <- SerialStep
INVARIANT Report
CHECK_DEADLOCK FALSE
