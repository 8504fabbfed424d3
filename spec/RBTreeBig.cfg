SPECIFICATION Spec
CONSTANTS MaxKey = 11
VIEW View
INVARIANTS Refines Rules Depth Nearest
CHECK_DEADLOCK FALSE
