SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvMatches InvAligned InvLocal PrintScript
CONSTANTS NN = 2
NE = 2
Lens = {1, 3}
Dirs = {"out", "in", "any"}
Bnds = {11, 12, 29}
NodeLs = TRUE
Naming = {"none", "cycle"}
Binding = {"none"}
Ring = 0
