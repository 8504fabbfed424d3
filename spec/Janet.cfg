CONSTANTS N = 2 Box = 2 MaxElem = 4
SPECIFICATION Spec
VIEW View
INVARIANTS UniqueDivisor DivisorIsDivisor OwnDivisor LocalInvolutivity
PROPERTIES Monotone
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
