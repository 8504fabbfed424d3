SPECIFICATION TraceSpec
CONSTANTS P = 32003 Checked = {"use"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
