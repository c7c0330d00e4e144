CONSTANTS Fine = FALSE
SPECIFICATION Spec
INVARIANTS Grounded Margins Frechet Symmetric BoxesNonNegative Emit
CHECK_DEADLOCK FALSE
