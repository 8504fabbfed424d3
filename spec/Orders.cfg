SPECIFICATION Spec
CONSTANTS MaxVar = 2 MaxExp = 2 MaxPos = 1
INVARIANTS Antisymmetric EqualIffSame Transitive Multiplicative WellOrder Graded AntiGraded PosFirst
CHECK_DEADLOCK FALSE
