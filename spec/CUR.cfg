SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS InvCursor
PROPERTY InvUndo
CONSTANTS NN = 2
NE = 3
MaxOps = 6
