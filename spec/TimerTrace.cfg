SPECIFICATION TraceSpec
CONSTANTS NT = 1 MaxNow = 5
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
