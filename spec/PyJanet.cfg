CONSTANTS N = 2 Box = 2 MaxElem = 3
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS UniqueDivisor OwnDivisor TailMultiplicative LocalInvolutivity AncestorDivides
PROPERTIES Covered
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
