CONSTANTS Depth = 3 Ops = {"assign", "fit", "refused", "text", "html"}
SPECIFICATION Spec
VIEW View
INVARIANTS ShowsTheObject TellsApart
PROPERTIES PrintingChangesNothing
CHECK_DEADLOCK FALSE
