SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDone InvErr PrintScript
CONSTANTS NN = 3
NE = 3
Faults = FALSE
