SPECIFICATION DTraceSpec
CONSTANTS P = 45989 Extra = 4
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
