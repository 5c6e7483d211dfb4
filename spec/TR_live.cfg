SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvTrails InvBounded 
PROPERTY Terminates
CONSTANTS NN = 2
NE = 2
Dirs = {"out", "in", "any"}
Bnds = {11, 13, 29, 99, 92}
Stops = {0, 1, 2}
Ring = 0
