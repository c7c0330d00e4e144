CONSTANTS Dims = {2, 3, 4} Whole = {2, 3}
SPECIFICATION Spec
INVARIANTS MatchedByName PositionalOtherwise Lossless Emit
CHECK_DEADLOCK FALSE
