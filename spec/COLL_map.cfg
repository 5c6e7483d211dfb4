SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS InvSet InvMap InvSize
CONSTANTS NN = 3
Labels = {"A", "B"}
MaxOps = 12
Ops = {"map"}
