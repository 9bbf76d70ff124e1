SPECIFICATION Spec
CONSTANTS
  Thr = {1, 2, 3}
  MaxDepth = 3
  MaxWaits = 2
INVARIANTS Exclusion Depth NoPhantom Alive
CHECK_DEADLOCK FALSE
