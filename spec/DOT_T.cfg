SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDone InvErr PrintScript
PROPERTY Terminates
CONSTANTS NN = 2
NE = 3
Faults = TRUE
