SPECIFICATION SSpec
CONSTANTS
  S0 <- InternS0
  Step <- InternStep
INVARIANT Report
CHECK_DEADLOCK FALSE
