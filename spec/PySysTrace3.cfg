SPECIFICATION PyTraceSpec
CONSTANTS P = 38239 Checked = {"basis", "use"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
