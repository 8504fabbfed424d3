SPECIFICATION PySpec
CONSTANTS MaxReg = 2 MaxVar = 2 MaxPos = 1 MaxDeg = 2
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Algebra OrderLaws Transitive Lattice Degrees
CHECK_DEADLOCK FALSE
