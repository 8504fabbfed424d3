SPECIFICATION TraceSpec
CONSTANTS P = 45989 Checked = {"basis", "use", "hp"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
