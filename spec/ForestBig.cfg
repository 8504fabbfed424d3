CONSTANTS N = 2 Box = 3 MaxElem = 4
SPECIFICATION Spec
VIEW View
INVARIANTS OnePerTree Distinct Keeps Answer
CHECK_DEADLOCK FALSE
