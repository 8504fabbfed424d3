CONSTANTS N = 3 Box = 2 MaxPush = 2 MaxElem = 20 KindSet = {"janet", "lex", "deglex", "lexGB", "deglexGB", "GB"}
SPECIFICATION Spec
VIEW View
INVARIANTS Bounded InsideIdeal Result
CHECK_DEADLOCK FALSE
