SPECIFICATION TraceSpec
CONSTANTS P = 32003 Checked = {"basis", "use", "hp"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
