SPECIFICATION Spec
CONSTANTS R = 5
MaxW = 3
SeedEach = TRUE
INVARIANTS DistinctDraws Once OrderFree Emit
PROPERTY AllDone
CHECK_DEADLOCK FALSE
