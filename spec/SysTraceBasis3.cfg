SPECIFICATION TraceSpec
CONSTANTS P = 38239 Checked = {"basis"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
