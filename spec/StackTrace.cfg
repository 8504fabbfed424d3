SPECIFICATION TraceSpec
CONSTANTS NS = 2 MaxDeep = 3 Vals = {1, 2} Caps = {0}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
