SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvMatches InvAligned InvLocal PrintScript
CONSTANTS NN = 3
NE = 3
Lens = {1, 3}
Dirs = {"out", "in", "any"}
Bnds = {11, 12, 29, 22}
NodeLs = FALSE
Naming = {"none", "cycle"}
Binding = {"none"}
Ring = 0
