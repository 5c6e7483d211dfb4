SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvC11 InvPrefix InvOwn
CONSTANTS NP = 2
MaxOps = 4
MaxEls = 2
MaxApp = 1
Ops = {"pslot", "pclone", "pappend", "prml"}
Build = 0
