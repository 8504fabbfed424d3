SPECIFICATION SpecAlg
CONSTANTS P = 5 Nv = 2 Ord = 18 Comps = {0} Deg = 2 Coefs = {1, 4} Terms = 2 Count = 2 Product = "ideals" Alg = "Block"
INVARIANTS Sound Distinct LeadsRight Right Marks
PROPERTY Ends
CHECK_DEADLOCK FALSE
