SPECIFICATION Spec
INVARIANT Inv Casts
CONSTRAINT Lim
VIEW View
CONSTANT MaxHeap = 5
CHECK_DEADLOCK FALSE
