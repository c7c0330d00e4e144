CONSTANTS Fine = TRUE
SPECIFICATION Spec
INVARIANTS DensityIsDerivative StudentMargin NonNegative Exchangeable Emit
CHECK_DEADLOCK FALSE
