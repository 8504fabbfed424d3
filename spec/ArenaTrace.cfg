SPECIFICATION TraceSpec
CONSTANTS NA = 2 Page = 4128 Reqs = {1} MaxBlk = 2
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
