CONSTANTS Sets = {"danube", "marginal", "residuals", "smi", "returns"} Depth = 3
SPECIFICATION Spec
INVARIANTS OnlyTheCallerSpoils
PROPERTIES LoadsAreIntact OthersStay
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
