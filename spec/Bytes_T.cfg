SPECIFICATION SSpec
CONSTANTS
  S0 <- BytesS0
  Step <- BytesStep
INVARIANT Report
CHECK_DEADLOCK FALSE
