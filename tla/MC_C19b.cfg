SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS AnswersNeedParameters Emit
PROPERTY RefusalChangesNothing
CHECK_DEADLOCK FALSE
