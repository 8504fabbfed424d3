SPECIFICATION Spec
CONSTANTS MaxVar = 1 MaxPar = 0 MaxDeg = 1 MaxCoef = 1 PosSize = 1 Diff = FALSE OrderSet = {18}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK RingLaws RedLaws
CHECK_DEADLOCK FALSE
