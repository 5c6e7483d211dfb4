SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvResult PrintScript
PROPERTY Terminates
CONSTANTS Mode = "run"
Big = TRUE
