INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvC01 InvC02 InvC03 InvC04 InvC05 InvC18 InvC24
CONSTANTS NodesInit = 1
MaxN = 1
MaxE = 3
NLabels = {}
ELabels = {"L","M"}
Keys = {"i"}
Ints = {1,2}
Ops = {"ne","sep","rep","ixe","rme","det","sel"}
