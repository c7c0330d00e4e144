SPECIFICATION Spec
CONSTANTS N = 5
K = 3
INVARIANTS Exchangeable Radial ReplicatesKeepTies Emit
CHECK_DEADLOCK FALSE
