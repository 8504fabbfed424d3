SPECIFICATION DTraceSpec
CONSTANTS P = 32003 Extra = 4
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
