SPECIFICATION Spec
CONSTANTS MaxReg = 3 VarSet = {0, 1, 2, 5}
VIEW View
INVARIANTS TypeOK OrderLaws Algebra
CHECK_DEADLOCK FALSE
