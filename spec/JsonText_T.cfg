SPECIFICATION SSpec
CONSTANTS
  S0 <- JsonTextS0
  Step <- JsonTextStep
INVARIANT Report
CHECK_DEADLOCK FALSE
