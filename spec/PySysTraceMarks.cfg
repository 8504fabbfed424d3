SPECIFICATION PyTraceSpec
CONSTANTS P = 32003 Checked = {}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
