SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2} Limits = {0, 1, 2}
INVARIANTS KeepsTheBest KeepsTheLast StopsInTime NeverPastTheRule WithinLimit Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
