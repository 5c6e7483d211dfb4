SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvYield InvSize InvFinal PrintScript
PROPERTY Terminates
CONSTANTS Vals = {1, 2}
Deep = FALSE
