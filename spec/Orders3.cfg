SPECIFICATION Spec
CONSTANTS MaxVar = 3 MaxExp = 1 MaxPos = 1
INVARIANTS Antisymmetric EqualIffSame Transitive Multiplicative WellOrder Graded AntiGraded PosFirst
CHECK_DEADLOCK FALSE
