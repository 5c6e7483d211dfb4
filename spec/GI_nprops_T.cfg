INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvC01 InvC02 InvC03 InvC04 InvC05 InvC18 InvC24
CONSTANTS NodesInit = 0
MaxN = 2
MaxE = 0
NLabels = {"A"}
ELabels = {"L"}
Keys = {"i"}
Ints = {1,2,3}
Ops = {"nn","snp","rnp","ixn","dr"}
