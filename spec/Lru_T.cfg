SPECIFICATION SSpec
CONSTANTS
  S0 <- LruS0
  Step <- LruStep
INVARIANT Report
CHECK_DEADLOCK FALSE
