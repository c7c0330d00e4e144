CONSTANTS Fine = FALSE
SPECIFICATION Spec
INVARIANTS DensityIsDerivative StudentMargin NonNegative Exchangeable Emit
CHECK_DEADLOCK FALSE
