SPECIFICATION Spec
CONSTANTS P = 5 Nv = 2 Ord = 34 Comps = {1, 2} Deg = 1 Coefs = {1, 4} Terms = 2 Count = 2 Product = "always"
INVARIANTS Sound Distinct LeadsRight Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
