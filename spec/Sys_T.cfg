SPECIFICATION SSpec
CONSTANTS
  S0 <- SysS0
  Step <- SysStep
INVARIANT Report
CHECK_DEADLOCK FALSE
