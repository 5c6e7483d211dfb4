SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS InvC11 InvPrefix InvOwn
CONSTANTS NP = 2
MaxOps = 4
MaxEls = 1
MaxApp = 1
Ops = {"pnode", "pels", "pslot", "pclone", "pslice", "ponly", "pclear", "pappend", "pappendp", "prml", "prmf"}
Build = 0
