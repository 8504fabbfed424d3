CONSTANTS N = 2 Box = 2 MaxPush = 3 MaxElem = 12 KindSet = {"janet", "lex", "deglex", "lexGB", "deglexGB", "GB"}
SPECIFICATION Spec
VIEW View
INVARIANTS Bounded InsideIdeal Result
CHECK_DEADLOCK FALSE
