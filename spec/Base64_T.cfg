SPECIFICATION SSpec
CONSTANTS
  S0 <- Base64S0
  Step <- Base64Step
INVARIANT Report
CHECK_DEADLOCK FALSE
