SPECIFICATION SSpec
CONSTANTS
  S0 <- CsvS0
  Step <- CsvStep
INVARIANT Report
CHECK_DEADLOCK FALSE
