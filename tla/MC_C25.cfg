CONSTANTS N = 3 Keys = {"a", "b"}
SPECIFICATION Spec
INVARIANTS AsAWhole LaterWins KeysKept Idempotent Neutral
PROPERTIES RestKept
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
