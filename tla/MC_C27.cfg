CONSTANTS Depth = 4 Most = 4 Changes = {"assign", "fit", "table"} Asks = {"refused", "answers", "scribble"} Ways = {"deep", "pickle"}
SPECIFICATION Spec
INVARIANTS Shared
PROPERTIES OthersStay CopiesAgree
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
