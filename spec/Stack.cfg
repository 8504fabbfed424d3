SPECIFICATION Spec
CONSTANTS NS = 2 MaxDeep = 3 Vals = {1, 2} Caps = {1, 2, 3}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Fits
PROPERTIES Lifo
CHECK_DEADLOCK FALSE
