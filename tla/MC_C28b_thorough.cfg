SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS UpToDate Emit
CHECK_DEADLOCK FALSE
