SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDone InvErr PrintScript
PROPERTY Terminates
CONSTANTS NN = 2
NE = 2
Faults = TRUE
