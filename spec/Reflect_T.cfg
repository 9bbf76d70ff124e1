SPECIFICATION SSpec
CONSTANTS
  S0 <- ReflectS0
  Step <- ReflectStep
INVARIANT Report
CHECK_DEADLOCK FALSE
