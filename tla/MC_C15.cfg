SPECIFICATION Spec
CONSTANTS N = 4
K = 3
INVARIANTS Exchangeable Radial ReplicatesKeepTies Emit
CHECK_DEADLOCK FALSE
