SPECIFICATION Spec
CONSTANTS
  W = {w1, w2, w3}
  C = {c1}
  Stoppers = {s1}
  Waiters = {x1}
INVARIANTS Inv Serving
PROPERTY Ends
CHECK_DEADLOCK FALSE
