SPECIFICATION TraceSpec
CONSTANTS Dim = 1 Box = 1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
