SPECIFICATION TraceSpec
CONSTANTS N = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
