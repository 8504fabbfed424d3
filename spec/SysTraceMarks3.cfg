SPECIFICATION TraceSpec
CONSTANTS P = 38239 Checked = {"marks"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
