SPECIFICATION SSpec
CONSTANTS
  S0 <- SockS0
  Step <- SockStep
INVARIANT Report
CHECK_DEADLOCK FALSE
