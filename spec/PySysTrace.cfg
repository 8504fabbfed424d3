SPECIFICATION PyTraceSpec
CONSTANTS P = 32003 Checked = {"basis", "use"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
