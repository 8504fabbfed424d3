SPECIFICATION Spec
CONSTANTS NA = 2 Page = 4128 Reqs = {1, 4111, 9000} MaxBlk = 3
VIEW View
CONSTRAINT Bound
INVARIANTS SizeExact CurrExact PeakOK Inside Disjoint Aligned
PROPERTIES Stable
CHECK_DEADLOCK FALSE
