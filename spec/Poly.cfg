SPECIFICATION Spec
CONSTANTS MaxVar = 1 MaxDeg = 1 MaxCoef = 1 PosSize = 1 OrderSet = {17, 20}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK RingLaws NFLaws
CHECK_DEADLOCK FALSE
