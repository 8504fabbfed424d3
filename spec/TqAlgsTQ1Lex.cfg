SPECIFICATION SpecAlg
CONSTANTS P = 5 Nv = 2 Ord = 17 Comps = {0} Deg = 2 Coefs = {1, 4} Terms = 2 Count = 2 Product = "ideals" Alg = "TQ1"
INVARIANTS Sound Distinct LeadsRight Right Marks
PROPERTY Ends
CHECK_DEADLOCK FALSE
