SPECIFICATION TraceSpec
CONSTANTS P = 32003 Checked = {"memory"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
