SPECIFICATION TraceSpec
CONSTANTS N = 1 Box = 1 MaxElem = 1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
