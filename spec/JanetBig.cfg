CONSTANTS N = 3 Box = 2 MaxElem = 3
SPECIFICATION Spec
VIEW View
INVARIANTS UniqueDivisor DivisorIsDivisor OwnDivisor LocalInvolutivity
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
