SPECIFICATION TraceSpec
CONSTANTS P = 38239 Checked = {"use"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
