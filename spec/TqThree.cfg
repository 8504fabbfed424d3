SPECIFICATION Spec
CONSTANTS P = 5 Nv = 3 Ord = 18 Comps = {0} Deg = 1 Coefs = {1, 4} Terms = 2 Count = 3 Product = "ideals"
INVARIANTS Sound Distinct LeadsRight Right Marks
PROPERTY Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
