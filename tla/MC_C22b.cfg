SPECIFICATION Spec
CONSTANTS
 Depth = 3
INVARIANTS ShowsTheParameter Emit
PROPERTY OnlyWritesChange
CHECK_DEADLOCK FALSE
