INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvC01 InvC02 InvC03 InvC04 InvC05 InvC18 InvC24
CONSTANTS NodesInit = 2
MaxN = 2
MaxE = 4
NLabels = {}
ELabels = {"L","M"}
Keys = {}
Ints = {}
Ops = {"ne","sel","rme","det","dr"}
