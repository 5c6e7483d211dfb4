SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvIso PrintScript
CONSTANTS NN = 3
NE = 3
NodeLabels = {""}
EdgeLabels = {"L"}
NRels = {"labels"}
ERels = {"labels"}
