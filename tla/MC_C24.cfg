SPECIFICATION Spec
CONSTANTS
 Fine = FALSE
INVARIANTS ByInversion Levy Closed Mirror Accumulates Bounds AtTheKnot AcrossOne Tails Peak Emit
CHECK_DEADLOCK FALSE
