SPECIFICATION Spec
CONSTANTS
 Fine = TRUE
INVARIANTS DebyeSmall DebyeLarge DebyeByDilog DebyeFalls DilogIntegral DilogNegative DilogSquare LineIntegral Conjugate Squares ClausenCircle PolySums PolySeries LogExp Emit
CHECK_DEADLOCK FALSE
