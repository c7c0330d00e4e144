SPECIFICATION Spec
CONSTANTS
 Depth = 4
INVARIANTS ShowsTheParameter Emit
PROPERTY OnlyWritesChange
CHECK_DEADLOCK FALSE
