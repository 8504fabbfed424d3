CONSTANTS N = 2 Box = 2 MaxElem = 3
SPECIFICATION Spec
VIEW View
INVARIANTS OnePerTree Distinct Keeps Answer
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
