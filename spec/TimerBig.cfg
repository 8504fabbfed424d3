SPECIFICATION Spec
CONSTANTS NT = 2 MaxNow = 5
VIEW View
CONSTRAINT Bound
INVARIANTS NeverNegative WithinWall
PROPERTIES OnlyAtStop StopAddsInterval IdleLost
CHECK_DEADLOCK FALSE
