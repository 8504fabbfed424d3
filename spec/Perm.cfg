SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS AlwaysPerm Bijection
CHECK_DEADLOCK FALSE
