SPECIFICATION Spec
CONSTANTS Dim = 5 Box = 6
INVARIANTS Pascal Value Lowest Ring
CHECK_DEADLOCK FALSE
