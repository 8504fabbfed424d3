SPECIFICATION TraceSpec
CONSTANTS P = 32003 Checked = {"marks"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
