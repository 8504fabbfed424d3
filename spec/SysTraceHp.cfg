SPECIFICATION TraceSpec
CONSTANTS P = 32003 Checked = {"hp"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
