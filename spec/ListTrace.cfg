SPECIFICATION TraceSpec
CONSTANTS NL = 2 NI = 1 NC = 1 MaxLen = 2 Vals = {1, 2}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
