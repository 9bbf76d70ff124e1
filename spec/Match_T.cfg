SPECIFICATION SSpec
CONSTANTS
  S0 <- MatchS0
  Step <- MatchStep
INVARIANT Report
CHECK_DEADLOCK FALSE
