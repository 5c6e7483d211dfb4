SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvMatches InvAligned InvLocal PrintScript
CONSTANTS NN = 2
NE = 3
Lens = {1, 3}
Dirs = {"out", "in", "any"}
Bnds = {11, 12, 19}
NodeLs = TRUE
Naming = {"all", "cycle"}
Binding = {"none", "node", "edge", "wrong"}
Ring = 0
