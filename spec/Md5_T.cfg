SPECIFICATION SSpec
CONSTANTS
  S0 <- Md5S0
  Step <- Md5Step
INVARIANT Report
CHECK_DEADLOCK FALSE
