SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvCopy PrintScript
PROPERTY Isolated
CONSTANTS NN = 3
NE = 2
