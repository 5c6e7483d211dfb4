SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS InvC20 InvEqual
PROPERTIES Confined NoWrite
CONSTANTS NS = 2
NN = 1
Str = {"a", "b"}
MaxOps = 7
Ops = {"new", "zero", "copy", "json", "add", "rm", "unm", "node"}
