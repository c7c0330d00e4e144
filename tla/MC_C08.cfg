CONSTANTS Depth = 2
SPECIFICATION Spec
INVARIANTS ReportOfLastFit Together Emit
PROPERTIES AllOrNothing RefusedChangesNothing
CHECK_DEADLOCK FALSE
