SPECIFICATION Spec
CONSTANTS
 Fine = FALSE
INVARIANTS DebyeSmall DebyeLarge DebyeByDilog DebyeFalls DilogIntegral DilogNegative DilogSquare LineIntegral Conjugate Squares ClausenCircle PolySums PolySeries LogExp Emit
CHECK_DEADLOCK FALSE
