SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDecode InvReject InvHook InvDepth InvCut PrintScript
CONSTANTS MaxNodes = 2
MaxEmb = 2
MaxSep = 1
Unknown = {"scalar", "name", "array", "deep"}
Hooks = TRUE
Cuts = FALSE
