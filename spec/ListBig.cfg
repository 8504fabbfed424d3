SPECIFICATION Spec
CONSTANTS NL = 2 NI = 2 NC = 1 MaxLen = 3 Vals = {1, 2}
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK
PROPERTIES Conserve
CHECK_DEADLOCK FALSE
