SPECIFICATION TraceSpec
CONSTANTS P = 45989 Checked = {"marks"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
