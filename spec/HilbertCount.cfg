CONSTANTS N = 2 Box = 3 MaxElem = 3
SPECIFICATION Spec
VIEW View
INVARIANTS ConesCount IdealCount OutsideRight
CHECK_DEADLOCK FALSE
