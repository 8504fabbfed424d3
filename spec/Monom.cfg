SPECIFICATION Spec
CONSTANTS MaxReg = 2 MaxVar = 2 MaxPos = 1 MaxDeg = 2
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Algebra OrderLaws Transitive
CHECK_DEADLOCK FALSE
