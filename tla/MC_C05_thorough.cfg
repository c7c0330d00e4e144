CONSTANTS Fine = TRUE
SPECIFICATION Spec
INVARIANTS Decreasing Negative UndoEachOther FirstDerivative SecondDerivative PickandsBounds PickandsConvex PickandsDerivatives PickandsReproducesCdf Emit
CHECK_DEADLOCK FALSE
