SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDoc InvHook InvErr PrintScript
PROPERTY Terminates
CONSTANTS MaxN = 3
MaxE = 2
Faults = TRUE
