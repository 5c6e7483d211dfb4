SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS InvSet InvMap InvSize
CONSTANTS NN = 4
Labels = {}
MaxOps = 12
Ops = {"set"}
