SPECIFICATION Spec
CONSTANTS NA = 2 Page = 4128 Reqs = {1, 4111, 9000} MaxBlk = 2
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS SizeExact CurrExact PeakOK Inside Disjoint Aligned
PROPERTIES Stable
CHECK_DEADLOCK FALSE
