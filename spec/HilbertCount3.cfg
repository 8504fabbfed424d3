CONSTANTS N = 3 Box = 1 MaxElem = 3
SPECIFICATION Spec
VIEW View
INVARIANTS ConesCount IdealCount OutsideRight
CHECK_DEADLOCK FALSE
