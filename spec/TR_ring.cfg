SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvTrails InvBounded PrintScript
CONSTANTS NN = 6
NE = 7
Dirs = {"out", "in", "any"}
Bnds = {19, 49, 99}
Stops = {0, 3}
Ring = 6
