SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvMatches InvAligned InvLocal PrintScript
CONSTANTS NN = 6
NE = 7
Lens = {3}
Dirs = {"out", "in", "any"}
Bnds = {19, 49, 17}
NodeLs = TRUE
Naming = {"none", "cycle"}
Binding = {"none"}
Ring = 6
