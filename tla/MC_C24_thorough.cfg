SPECIFICATION Spec
CONSTANTS
 Fine = TRUE
INVARIANTS ByInversion Levy Closed Mirror Accumulates Bounds AtTheKnot AcrossOne Tails Peak Emit
CHECK_DEADLOCK FALSE
