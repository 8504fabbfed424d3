SPECIFICATION CySpec
CONSTANTS MaxVar = 2 MaxDeg = 1 MaxCoef = 1 PosSize = 1 OrderSet = {18} MaxViews = 1
VIEW CyView
CONSTRAINT CyBound
ACTION_CONSTRAINT CyEmit
INVARIANTS TypeOK ViewsAgree
PROPERTY ViewsKeep
CHECK_DEADLOCK FALSE
