SPECIFICATION Spec
CONSTANTS N = 6
D = 3
INVARIANTS SymmetricBounded RowsNest RanksOnly SignTurns Emit
CHECK_DEADLOCK FALSE
