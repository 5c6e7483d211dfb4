SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvLaws
CONSTANTS Mode = "laws"
Big = TRUE
