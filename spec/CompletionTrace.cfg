SPECIFICATION TraceSpec
CONSTANTS N = 1 Box = 1 MaxPush = 1 MaxElem = 1 KindSet = {"janet"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
