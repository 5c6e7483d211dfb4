SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDecode InvReject InvHook InvDepth InvCut PrintScript
CONSTANTS MaxNodes = 2
MaxEmb = 0
MaxSep = 2
Unknown = {"name"}
Hooks = TRUE
Cuts = FALSE
