SPECIFICATION PyTraceSpec
CONSTANTS P = 45989 Checked = {"basis", "use"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
