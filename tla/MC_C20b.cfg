SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS AnswersAreTrue Emit
CHECK_DEADLOCK FALSE
