SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvTrails InvBounded PrintScript
CONSTANTS NN = 2
NE = 3
Dirs = {"out", "in", "any"}
Bnds = {11, 13, 29, 99, 92}
Stops = {0, 1, 2}
Ring = 0
