SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvC11 InvPrefix InvOwn
CONSTANTS NP = 2
MaxOps = 5
MaxEls = 2
MaxApp = 1
Ops = {"pels", "pappendp", "pappend", "prml"}
Build = 2
