SPECIFICATION SSpec
CONSTANTS
  S0 <- FenwickS0
  Step <- FenwickStep
INVARIANT Report
CHECK_DEADLOCK FALSE
