SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS InvIds InvOwn
PROPERTIES Stable NoReuse
CONSTANTS MaxN = 3
MaxE = 2
Ops = {"copy"}
