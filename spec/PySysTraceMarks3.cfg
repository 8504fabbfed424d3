SPECIFICATION PyTraceSpec
CONSTANTS P = 38239 Checked = {}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
