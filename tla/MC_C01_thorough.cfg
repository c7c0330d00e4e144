CONSTANTS N = 5
SPECIFICATION Spec
INVARIANTS MeanOfMinMax Ordered OrdinalPerm SumAverage InUnit OrderKept TiesShare
CONSTRAINT Emit
PROPERTIES RelabelKeepsRanks SwapMovesRanks
CHECK_DEADLOCK FALSE
