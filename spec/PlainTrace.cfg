SPECIFICATION TraceSpec
CONSTANTS NA = 2 Reqs = {1} MaxBlk = 2
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
