SPECIFICATION Spec
CONSTANTS MaxVar = 1 MaxDeg = 2 MaxCoef = 1 PosSize = 1 OrderSet = {18}
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK RingLaws NFLaws
CHECK_DEADLOCK FALSE
