SPECIFICATION TraceSpec
CONSTANTS MaxReg = 2 VarSet = {0}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
