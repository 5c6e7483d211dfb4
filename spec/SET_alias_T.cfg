SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvC20 InvEqual
PROPERTIES Confined NoWrite
CONSTANTS NS = 2
NN = 1
Str = {"a", "b"}
MaxOps = 3
Ops = {"new", "zero", "copy", "json", "add", "rm", "unm", "node"}
