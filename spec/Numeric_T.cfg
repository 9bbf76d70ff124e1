SPECIFICATION SSpec
CONSTANTS
  S0 <- NumericS0
  Step <- NumericStep
INVARIANT Report
CHECK_DEADLOCK FALSE
