CONSTANTS Dims = {2, 3, 4} Depth = 2
SPECIFICATION Spec
INVARIANTS ViewsAgree Symmetric Valid PositionsArePairs Emit
PROPERTY Allowed
CHECK_DEADLOCK FALSE
