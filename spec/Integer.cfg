SPECIFICATION Spec
INVARIANTS Both
CHECK_DEADLOCK FALSE
