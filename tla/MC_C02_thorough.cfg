CONSTANTS Fine = TRUE
SPECIFICATION Spec
INVARIANTS Grounded Margins Frechet Symmetric BoxesNonNegative Emit
CHECK_DEADLOCK FALSE
