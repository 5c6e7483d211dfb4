INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvC01 InvC02 InvC03 InvC04 InvC05 InvC18 InvC24
CONSTANTS NodesInit = 0
MaxN = 7
MaxE = 0
NLabels = {}
ELabels = {"L"}
Keys = {}
Ints = {}
Ops = {"nn","dr"}
