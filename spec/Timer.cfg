SPECIFICATION Spec
CONSTANTS NT = 1 MaxNow = 5
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS NeverNegative WithinWall
PROPERTIES OnlyAtStop StopAddsInterval IdleLost
CHECK_DEADLOCK FALSE
