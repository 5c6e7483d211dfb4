SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDecode InvReject InvHook InvDepth InvCut PrintScript
PROPERTY Terminates
CONSTANTS MaxNodes = 2
MaxEmb = 1
MaxSep = 1
Unknown = {"scalar", "name", "empty", "array", "nested", "deep"}
Hooks = FALSE
Cuts = TRUE
