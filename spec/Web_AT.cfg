SPECIFICATION Spec
CONSTANTS
 Threads = {"t1", "t2"}
 Clients = {1, 2, 3}
 Kinds = {0, 3}
 Acts = {0, 1, 3}
 Hows = {0, 3, 4}
INVARIANT Inv
PROPERTY Served
CHECK_DEADLOCK FALSE
