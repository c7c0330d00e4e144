SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS UpToDate Emit
CHECK_DEADLOCK FALSE
