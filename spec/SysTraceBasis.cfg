SPECIFICATION TraceSpec
CONSTANTS P = 32003 Checked = {"basis"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
