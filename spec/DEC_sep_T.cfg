SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvDecode InvReject InvHook InvDepth InvCut PrintScript
CONSTANTS MaxNodes = 3
MaxEmb = 1
MaxSep = 1
Unknown = {"deep"}
Hooks = TRUE
Cuts = FALSE
