SPECIFICATION CyTraceSpec
CONSTANTS MaxReg = 2 MaxVar = 2 MaxPos = 1 MaxDeg = 2
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
