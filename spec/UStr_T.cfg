SPECIFICATION SSpec
CONSTANTS
  S0 <- UStrS0
  Step <- UStrStep
INVARIANT Report
CHECK_DEADLOCK FALSE
