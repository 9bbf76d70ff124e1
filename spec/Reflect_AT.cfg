SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Steps = 6
INVARIANTS Kept Balanced
PROPERTY Stay
CHECK_DEADLOCK FALSE
