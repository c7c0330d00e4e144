CONSTANTS N = 4 K = 2
SPECIFICATION Spec
INVARIANTS Interior Emit
PROPERTIES OrderFree RanksOnly
CHECK_DEADLOCK FALSE
