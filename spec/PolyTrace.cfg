SPECIFICATION TraceSpec
CONSTANTS MaxVar = 1 MaxDeg = 1 MaxCoef = 1 PosSize = 1 OrderSet = {17}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
