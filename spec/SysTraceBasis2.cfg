SPECIFICATION TraceSpec
CONSTANTS P = 45989 Checked = {"basis"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
