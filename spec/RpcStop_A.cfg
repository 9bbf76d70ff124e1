SPECIFICATION Spec
CONSTANTS
  W = {w1, w2}
  C = {c1, c2}
  Stoppers = {s1}
  Waiters = {x1, x2}
INVARIANTS Inv Serving
PROPERTY Ends
CHECK_DEADLOCK FALSE
