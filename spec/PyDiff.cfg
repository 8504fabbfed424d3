SPECIFICATION Spec
CONSTANTS MaxVar = 1 MaxPar = 1 MaxDeg = 1 MaxCoef = 1 PosSize = 2 Diff = TRUE OrderSet = {18}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK RingLaws RedLaws DiffLaws
CHECK_DEADLOCK FALSE
