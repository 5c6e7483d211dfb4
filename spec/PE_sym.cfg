SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvMatches InvAligned InvLocal PrintScript
CONSTANTS NN = 2
NE = 2
Lens = {1, 3}
Dirs = {"out", "any"}
Bnds = {11, 12}
NodeLs = FALSE
Naming = {"all"}
Binding = {"none", "node", "edge", "wrong"}
Ring = 0
