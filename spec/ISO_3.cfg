SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvIso PrintScript
CONSTANTS NN = 3
NE = 2
NodeLabels = {""}
EdgeLabels = {"L"}
NRels = {"labels"}
ERels = {"labels"}
