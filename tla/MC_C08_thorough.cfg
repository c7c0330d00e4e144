CONSTANTS Depth = 3
SPECIFICATION Spec
INVARIANTS ReportOfLastFit Together Emit
PROPERTIES AllOrNothing RefusedChangesNothing
CHECK_DEADLOCK FALSE
