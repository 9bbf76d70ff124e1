SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Steps = 5
INVARIANTS Kept Balanced
PROPERTY Stay
CHECK_DEADLOCK FALSE
