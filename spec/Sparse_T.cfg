SPECIFICATION SSpec
CONSTANTS
  S0 <- SparseS0
  Step <- SparseStep
INVARIANT Report
CHECK_DEADLOCK FALSE
