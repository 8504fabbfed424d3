SPECIFICATION TraceSpec
CONSTANTS P = 38239 Checked = {"basis", "use", "hp"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
