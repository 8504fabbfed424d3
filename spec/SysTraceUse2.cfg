SPECIFICATION TraceSpec
CONSTANTS P = 45989 Checked = {"use"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
