SPECIFICATION SSpec
CONSTANTS
  S0 <- RpcS0
  Step <- RpcStep
INVARIANT Report
CHECK_DEADLOCK FALSE
