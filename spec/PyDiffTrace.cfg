SPECIFICATION TraceSpec
CONSTANTS MaxVar = 1 MaxPar = 0 MaxDeg = 1 MaxCoef = 1 PosSize = 1 Diff = TRUE OrderSet = {17}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
