SPECIFICATION SSpec
CONSTANTS
  S0 <- SeqAlgS0
  Step <- SeqAlgStep
INVARIANT Report
CHECK_DEADLOCK FALSE
