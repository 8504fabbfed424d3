SPECIFICATION Spec
CONSTANTS MaxReg = 2 VarSet = {0, 1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK OrderLaws Algebra
CHECK_DEADLOCK FALSE
