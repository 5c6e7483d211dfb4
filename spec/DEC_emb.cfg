SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDecode InvReject InvHook InvDepth InvCut PrintScript
CONSTANTS MaxNodes = 2
MaxEmb = 2
MaxSep = 0
Unknown = {}
Hooks = TRUE
Cuts = FALSE
