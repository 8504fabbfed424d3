SPECIFICATION PyTraceSpec
CONSTANTS P = 45989 Checked = {}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
