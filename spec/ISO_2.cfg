SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvIso PrintScript
CONSTANTS NN = 2
NE = 2
NodeLabels = {"A", ""}
EdgeLabels = {"L", "M"}
NRels = {"labels"}
ERels = {"labels"}
