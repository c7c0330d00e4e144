CONSTANTS Dims = {2, 3, 4} Depth = 3
SPECIFICATION Spec
INVARIANTS ViewsAgree Symmetric Valid PositionsArePairs Emit
CHECK_DEADLOCK FALSE
