SPECIFICATION TraceSpec
CONSTANTS NR = 1 Vals = {} Sizes = {} Page = 1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
