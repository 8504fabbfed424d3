SPECIFICATION Spec
CONSTANTS NA = 2 Reqs = {1, 40} MaxBlk = 3
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS SizeExact CurrExact PeakOK Idle
PROPERTIES Stable
CHECK_DEADLOCK FALSE
