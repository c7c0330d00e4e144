CONSTANTS Sets = {"danube", "marginal", "residuals", "smi", "returns"} Depth = 4
SPECIFICATION Spec
INVARIANTS OnlyTheCallerSpoils
PROPERTIES LoadsAreIntact OthersStay
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
