SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvMatches InvAligned InvLocal PrintScript
CONSTANTS NN = 2
NE = 3
Lens = {5}
Dirs = {"out", "in", "any"}
Bnds = {11, 12}
NodeLs = FALSE
Naming = {"none", "cycle", "ecycle"}
Binding = {"none"}
Ring = 0
