SPECIFICATION SSpec
CONSTANTS
  S0 <- StrUtilS0
  Step <- StrUtilStep
INVARIANT Report
CHECK_DEADLOCK FALSE
