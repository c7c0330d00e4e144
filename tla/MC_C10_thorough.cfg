CONSTANTS Dims = {2, 3, 4, 5} Whole = {2, 3, 4}
SPECIFICATION Spec
INVARIANTS MatchedByName PositionalOtherwise Lossless Emit
CHECK_DEADLOCK FALSE
