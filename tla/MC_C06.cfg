CONSTANTS Depth = 2
SPECIFICATION Spec
INVARIANTS Held Emit
PROPERTY RefusalChangesNothing
CHECK_DEADLOCK FALSE
