SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvYield InvSize InvFinal PrintScript
CONSTANTS Vals = {1, 2}
Deep = TRUE
