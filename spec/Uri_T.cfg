SPECIFICATION SSpec
CONSTANTS
  S0 <- UriS0
  Step <- UriStep
INVARIANT Report
CHECK_DEADLOCK FALSE
