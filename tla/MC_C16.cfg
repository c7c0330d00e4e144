SPECIFICATION Spec
CONSTANTS R = 4
MaxW = 2
SeedEach = TRUE
INVARIANTS DistinctDraws Once OrderFree Emit
PROPERTY AllDone
CHECK_DEADLOCK FALSE
