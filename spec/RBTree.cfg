SPECIFICATION Spec
CONSTANTS MaxKey = 8
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Refines Rules Depth Nearest
CHECK_DEADLOCK FALSE
