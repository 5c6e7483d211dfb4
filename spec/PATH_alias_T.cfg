SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvC11 InvPrefix InvOwn
CONSTANTS NP = 2
MaxOps = 4
MaxEls = 1
MaxApp = 1
Ops = {"pslot", "pclone", "pslice", "pappend", "pappendp", "prml"}
Build = 0
