SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS InvIds InvOwn
PROPERTIES Stable NoReuse
CONSTANTS MaxN = 4
MaxE = 2
Ops = {}
