CONSTANTS Depth = 3
SPECIFICATION Spec
INVARIANTS Held Emit
PROPERTY RefusalChangesNothing
CHECK_DEADLOCK FALSE
