SPECIFICATION Spec
CONSTANTS N = 5
D = 3
INVARIANTS SymmetricBounded RowsNest RanksOnly SignTurns Emit
CHECK_DEADLOCK FALSE
