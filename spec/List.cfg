SPECIFICATION Spec
CONSTANTS NL = 2 NI = 1 NC = 1 MaxLen = 2 Vals = {1, 2}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES Conserve
CHECK_DEADLOCK FALSE
