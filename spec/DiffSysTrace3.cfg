SPECIFICATION DTraceSpec
CONSTANTS P = 38239 Extra = 4
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
