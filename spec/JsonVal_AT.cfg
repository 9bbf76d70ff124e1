SPECIFICATION Spec
INVARIANT Inv Casts
CONSTRAINT Lim
VIEW View
CONSTANT MaxHeap = 7
CHECK_DEADLOCK FALSE
