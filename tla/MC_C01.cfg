CONSTANTS N = 4
SPECIFICATION Spec
INVARIANTS MeanOfMinMax Ordered OrdinalPerm SumAverage InUnit OrderKept TiesShare
CONSTRAINT Emit
PROPERTIES RelabelKeepsRanks SwapMovesRanks
CHECK_DEADLOCK FALSE
