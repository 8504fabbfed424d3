SPECIFICATION TraceSpec
CONSTANTS MaxKey = 2
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
