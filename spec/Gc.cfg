SPECIFICATION Spec
CONSTANTS NR = 2 Vals = {0, 1, 2, 3} Sizes = {0, 1000, 2000, 3000, 4000, 5000} Page = 4128
INVARIANTS Counted CollectEnds
PROPERTY CollectKeeps
VIEW View
CHECK_DEADLOCK FALSE
